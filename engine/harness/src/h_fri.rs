//! P12 an honest low-degree proof is accepted, P13 what an accepted low-degree proof implies.
//! The trees and the transcript are stand-ins: a tree records what it is asked to commit, open and check, a transcript
//! returns a fresh arbitrary challenge at each squeeze and the positions of the case (P07-P11 decide the real ones).
use crate::sx::*;
use anyhow::Result;
use starky::fri::{FRIProof, Query, FRI};
use starky::traits::{FieldExtension, MTNodeType, MerkleTree, Transcript};
use starky::types::Step;
use std::cell::RefCell;

pub type Node = starky::ElementDigest<4, GL>;
pub type Opening = (Vec<GL>, Vec<Vec<GL>>);
#[derive(Default)]
pub struct World {
    /// what was put, and where something was squeezed
    pub log: Vec<Ev>,
    pub squeezed: usize,
    /// names of the challenges
    pub tag: String,
    pub positions: Vec<usize>,
    pub roots: usize,
    /// (root, path, index, row) of each opening checked
    pub checked: Vec<(Vec<GL>, Vec<Vec<GL>>, usize, Vec<GL>)>,
    /// the opening check that fails
    pub deny: Option<usize>,
    pub trees: Vec<(usize, usize, Vec<GL>)>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Put(Vec<GL>),
    Field,
    Positions(usize, usize),
}
thread_local!(pub static W: RefCell<World> = RefCell::new(World::default()));
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

pub struct Scribe;
impl Transcript for Scribe {
    fn new() -> Self {
        Scribe
    }
    fn get_field<F: FieldExtension>(&mut self) -> F {
        let n = world(|w| {
            w.log.push(Ev::Field);
            w.squeezed += 1;
            format!("{}{}", w.tag, w.squeezed - 1)
        });
        F::from_vec((0..3).map(|i| gl(&format!("{n}.{i}"))).collect())
    }
    fn get_fields1(&mut self) -> Result<GL> {
        panic!("not used")
    }
    fn put(&mut self, es: &[Vec<GL>]) -> Result<()> {
        world(|w| {
            for e in es {
                w.log.push(Ev::Put(e.clone()))
            }
        });
        Ok(())
    }
    fn get_permutations(&mut self, n: usize, nbits: usize) -> Result<Vec<usize>> {
        world(|w| {
            w.log.push(Ev::Positions(n, nbits));
            Ok(w.positions.iter().map(|p| p & ((1 << nbits) - 1)).collect())
        })
    }
}

#[derive(Clone)]
pub struct Tree {
    id: usize,
    w: usize,
    h: usize,
    b: Vec<GL>,
}
impl MerkleTree for Tree {
    type MTNode = Node;
    type ExtendField = F3G;
    type BaseField = GL;
    fn new() -> Self {
        Tree { id: usize::MAX, w: 0, h: 0, b: vec![] }
    }
    fn to_extend(&self, p: &mut Vec<F3G>) {
        *p = self.b.iter().map(|x| F3G::from(*x)).collect()
    }
    fn to_basefield(n: &Node) -> Vec<GL> {
        n.as_elements().to_vec()
    }
    fn from_basefield(_: &GL) -> Node {
        panic!("not used")
    }
    fn merkelize(&mut self, b: Vec<GL>, width: usize, height: usize) -> Result<()> {
        assert_eq!(b.len(), width * height);
        (self.w, self.h, self.b) = (width, height, b);
        self.id = world(|w| {
            w.trees.push((width, height, self.b.clone()));
            w.roots += 1;
            w.roots - 1
        });
        Ok(())
    }
    fn get_element(&self, i: usize, j: usize) -> GL {
        self.b[i * self.w + j]
    }
    fn get_group_proof(&self, i: usize) -> Result<Opening> {
        assert!(i < self.h);
        // the path stands for the tree and the row
        Ok((self.b[i * self.w..(i + 1) * self.w].to_vec(), vec![vec![c(self.id as u64), c(i as u64)]]))
    }
    fn verify_group_proof(&self, root: &Node, mp: &[Vec<GL>], i: usize, row: &[GL]) -> Result<bool> {
        Ok(world(|w| {
            w.checked.push((root.as_elements().to_vec(), mp.to_vec(), i, row.to_vec()));
            w.deny != Some(w.checked.len() - 1)
        }))
    }
    fn root(&self) -> Node {
        Node::new(&gls(&format!("root{}.", self.id), 4))
    }
    fn eq_root(&self, a: &Node, b: &Node) -> bool {
        a == b
    }
    fn element_size(&self) -> usize {
        self.b.len()
    }
}

const SHIFT: u64 = 49;
fn root(b: usize) -> GL {
    // 7^((p-1)/2^b)
    let (mut w, mut acc) = (c(7), one());
    for _ in 0..32 {
        acc = acc * w;
        w = w * w;
    }
    for _ in b..32 {
        acc = acc * acc;
    }
    acc
}
fn pow(mut x: GL, mut n: usize) -> GL {
    let mut r = one();
    while n > 0 {
        if n & 1 == 1 {
            r = r * x;
        }
        x = x * x;
        n >>= 1;
    }
    r
}
fn emb(x: GL) -> F3G {
    F3G::from(x)
}
fn powe(x: F3G, n: usize) -> F3G {
    let mut r = F3G::new(one(), zero(), zero());
    for _ in 0..n {
        r = r * x;
    }
    r
}
/// the shift of the domain of 2^b points, after folding from 2^ext
fn shift(ext: usize, b: usize) -> GL {
    let mut s = c(SHIFT);
    for _ in b..ext {
        s = s * s;
    }
    s
}
/// values of a polynomial on its domain
fn values(coef: &[F3G], ext: usize, b: usize) -> Vec<F3G> {
    let (s, w) = (shift(ext, b), root(b));
    (0..1usize << b)
        .map(|i| {
            let x = s * pow(w, i);
            let mut r = F3G::ZERO;
            for k in coef.iter().rev() {
                r = r * emb(x) + *k;
            }
            r
        })
        .collect()
}
/// f(X) = sum_i X^i g_i(X^m) becomes sum_i z^i g_i
fn fold(coef: &[F3G], m: usize, z: F3G) -> Vec<F3G> {
    coef.chunks(m).map(|g| {
        let mut r = F3G::ZERO;
        for k in g.iter().rev() {
            r = r * z + *k;
        }
        r
    }).collect()
}
/// the value at z of the polynomial below degree m through the row of position y: the values at x*u^j, u of order m
fn through(row: &[F3G], ext: usize, from: usize, y: usize, z: F3G) -> F3G {
    let m = row.len();
    let x0 = shift(ext, from) * pow(root(from), y);
    let u = root(m.trailing_zeros() as usize);
    let (ninv, x0i, ui) = (inv(c(m as u64)), inv(x0), inv(u));
    let mut r = F3G::ZERO;
    for k in 0..m {
        let mut ck = F3G::ZERO;
        for (j, v) in row.iter().enumerate() {
            ck = ck + *v * emb(pow(ui, j * k) * ninv);
        }
        r = r + ck * emb(pow(x0i, k)) * powe(z, k);
    }
    r
}
/// coefficients of the polynomial with these values on the subgroup
fn interpolate(v: &[F3G]) -> Vec<F3G> {
    let n = v.len();
    let (u, ninv) = (inv(root(n.trailing_zeros() as usize)), inv(c(n as u64)));
    (0..n).map(|k| v.iter().enumerate().fold(F3G::ZERO, |a, (j, x)| a + *x * emb(pow(u, j * k) * ninv))).collect()
}
fn split(row: &[GL]) -> Vec<F3G> {
    row.chunks(3).map(|x| F3G::new(x[0], x[1], x[2])).collect()
}
fn same_row(a: &[GL], b: &[GL], l: &str) {
    a.to_vec().prove(&b.to_vec(), l)
}

#[derive(Clone)]
pub struct Conf {
    pub name: &'static str,
    /// bits of the trace and of its extension
    pub bits: usize,
    pub ext: usize,
    pub steps: Vec<usize>,
    pub ys: Vec<usize>,
}
fn fri(k: &Conf) -> FRI {
    FRI { in_nbits: k.ext, max_deg_nbits: k.bits, n_queries: k.ys.len(), steps: k.steps.iter().map(|b| Step { nBits: *b }).collect() }
}
fn reset(k: &Conf) {
    world(|w| *w = World { tag: "z".into(), positions: k.ys.clone(), ..Default::default() })
}
fn bound(k: &Conf) -> usize {
    let (b, blow) = (*k.steps.last().unwrap(), k.ext - k.bits);
    if b < blow { 0 } else { 1 << (b - blow) }
}

// ------------------------------------------------------------------ P12
fn complete(h: &mut H, k: &Conf, n_coef: usize, free: usize) {
    let k = k.clone();
    h.case(&format!("complete.{}.{n_coef}.{free}", k.name), || {
        reset(&k);
        // coefficients: the first `free` in full generality, the rest in the base field
        let mut coef: Vec<F3G> = (0..n_coef).map(|i| if i % n_coef.max(1) < free { f3(&format!("a{i}")) } else { F3G::new(gl(&format!("a{i}")), zero(), zero()) }).collect();
        coef.resize(1 << k.bits, F3G::ZERO);
        let pol = values(&coef, k.ext, k.ext);
        let proof: FRIProof<F3G, Tree> = {
            let mut t = Scribe;
            let p = pol.clone();
            fri(&k).prove(&mut t, &p, |i| {
                let e = p[i].as_elements();
                vec![((0..3).map(|j| e.get(j).copied().unwrap_or(zero())).collect(), vec![vec![c(1000), c(i as u64)]])]
            }).unwrap()
        };
        // every layer is the folded polynomial
        let (log, trees) = world(|w| (std::mem::take(&mut w.log), std::mem::take(&mut w.trees)));
        let n = k.steps.len();
        truth(trees.len() == n - 1, "one committed layer per step but the last");
        let mut cur = coef.clone();
        let mut want = vec![];
        for s in 0..n {
            want.push(Ev::Field);
            if s > 0 {
                let z = F3G::new(gl(&format!("z{s}.0")), gl(&format!("z{s}.1")), gl(&format!("z{s}.2")));
                cur = fold(&cur, 1 << (k.steps[s - 1] - k.steps[s]), z);
            }
            let v = values(&cur, k.ext, k.steps[s]);
            if s + 1 < n {
                let groups = 1usize << k.steps[s + 1];
                let (w, hh, b) = &trees[s];
                truth(*hh == groups && *w == 3 * (v.len() / groups), "the layer's rows are the groups to be folded next");
                let rows: Vec<GL> = (0..groups).flat_map(|g| (0..v.len() / groups).flat_map(|j| c3(&v[j * groups + g])).collect::<Vec<_>>()).collect();
                eq(b, &rows, "the committed layer");
                want.push(Ev::Put(gls(&format!("root{s}."), 4)));
            } else {
                eq(&proof.last, &v, "the final polynomial in full");
                for x in &v {
                    for e in c3(x) {
                        want.push(Ev::Put(vec![e]))
                    }
                }
            }
        }
        want.push(Ev::Positions(k.ys.len(), k.steps[0]));
        same_log(&log, &want, "prover");
        truth(proof.queries.len() == n && proof.queries.iter().all(|q| q.pol_queries.len() == k.ys.len()), "every position is opened in every layer");
        // and the verifier accepts it, having seen the same
        world(|w| w.squeezed = 0);
        let seen = RefCell::new(vec![]);
        let r = fri(&k).verify(&mut Scribe, &proof, |q, i| {
            seen.borrow_mut().push(i);
            Ok(split(&q[0].0))
        });
        truth(matches!(r, Ok(true)), "the verifier accepts");
        let log = world(|w| std::mem::take(&mut w.log));
        same_log(&log, &want, "verifier");
        truth(seen.borrow().iter().zip(&k.ys).all(|(a, b)| *a == *b & ((1 << k.steps[0]) - 1)), "positions of the first layer");
        let checked = world(|w| std::mem::take(&mut w.checked));
        for (root, path, i, row) in checked {
            // the opening is one of the tree whose root is named
            let t = path[0][0].as_int() as usize;
            eq(&root, &gls(&format!("root{t}."), 4), "each opening belongs to its root");
            eq(&path[0][1], &c(i as u64), "each opening belongs to its position");
            eq(&row, &trees[t].2[i * trees[t].0..(i + 1) * trees[t].0].to_vec(), "each opening is a row of its tree");
        }
    });
}
fn same_log(a: &[Ev], b: &[Ev], who: &str) {
    // neighbouring puts are one
    fn flat(v: &[Ev]) -> Vec<Result<GL, Ev>> {
        v.iter().flat_map(|e| match e { Ev::Put(x) => x.iter().map(|y| Ok(*y)).collect(), o => vec![Err(o.clone())] }).collect()
    }
    let (a, b) = (flat(a), flat(b));
    truth(a.len() == b.len(), &format!("{who}: what passes through the transcript"));
    for (x, y) in a.iter().zip(&b) {
        match (x, y) {
            (Ok(x), Ok(y)) => eq(x, y, &format!("{who}: an absorbed value")),
            (Err(x), Err(y)) => truth(x == y, &format!("{who}: order of the transcript")),
            _ => truth(false, &format!("{who}: order of the transcript")),
        }
    }
}

// ------------------------------------------------------------------ P13
fn symbolic(k: &Conf) -> FRIProof<F3G, Tree> {
    let n = k.steps.len();
    let mut p: FRIProof<F3G, Tree> = FRIProof::new(n);
    for s in 0..n {
        if s > 0 {
            p.queries[s].root = Node::new(&gls(&format!("r{s}."), 4));
        }
        let m = if s == 0 { 1usize << (k.ext - k.steps[0]) } else { 1 << (k.steps[s - 1] - k.steps[s]) };
        for q in 0..k.ys.len() {
            let row = (0..3 * m).map(|i| gl(&format!("v{s}.{q}.{i}"))).collect();
            p.queries[s].pol_queries.push(vec![(row, vec![gls(&format!("p{s}.{q}."), 4)])]);
        }
    }
    p.last = (0..1usize << k.steps[n - 1]).map(|i| f3(&format!("l{i}"))).collect();
    p
}
/// what acceptance means: the two sides of every equation
fn meaning(k: &Conf, p: &FRIProof<F3G, Tree>) -> Vec<(F3G, F3G, String)> {
    let n = k.steps.len();
    let mut out = vec![];
    for (q, y0) in k.ys.iter().enumerate() {
        for s in 0..n {
            let y = y0 & ((1 << k.steps[s]) - 1);
            let from = if s == 0 { k.ext } else { k.steps[s - 1] };
            let z = F3G::new(gl(&format!("z{s}.0")), gl(&format!("z{s}.1")), gl(&format!("z{s}.2")));
            let f = through(&split(&p.queries[s].pol_queries[q][0].0), k.ext, from, y, z);
            let next = if s + 1 < n { split(&p.queries[s + 1].pol_queries[q][0].0)[y >> k.steps[s + 1]] } else { p.last[y] };
            out.push((f, next, format!("query {q}: the row of layer {s} folds to the value opened next")));
        }
    }
    for (i, x) in interpolate(&p.last).into_iter().enumerate().skip(bound(k) + 1) {
        out.push((x, F3G::ZERO, format!("coefficient {i} of the final polynomial is zero")));
    }
    out
}
fn sound(h: &mut H, k: &Conf) {
    let k0 = k.clone();
    h.case(&format!("sound.{}", k.name), || {
        let k = &k0;
        reset(k);
        let p = symbolic(k);
        let seen = RefCell::new(vec![]);
        let r = fri(k).verify(&mut Scribe, &p, |q, i| {
            seen.borrow_mut().push((q[0].clone(), i));
            Ok(split(&q[0].0))
        });
        let n = k.steps.len();
        if !matches!(r, Ok(true)) {
            // a proof is not rejected for nothing
            if k.steps.len() * k.ys.len() > 2 {
                return;
            }
            let all = meaning(k, &p).iter().all(|(a, b, _)| c3(a).iter().zip(c3(b)).all(|(x, y)| *x == y));
            truth(!all, "a proof for which everything holds is accepted");
            return;
        }
        for (a, b, l) in meaning(k, &p) {
            eq(&a, &b, &l);
        }
        // challenges depend on what they must depend on
        let mut want = vec![];
        for s in 0..n {
            want.push(Ev::Field);
            if s + 1 < n {
                want.push(Ev::Put(gls(&format!("r{}.", s + 1), 4)));
            } else {
                for x in &p.last {
                    want.push(Ev::Put(c3(x).to_vec()));
                }
            }
        }
        want.push(Ev::Positions(k.ys.len(), k.steps[0]));
        let (log, checked) = world(|w| (std::mem::take(&mut w.log), std::mem::take(&mut w.checked)));
        same_log(&log, &want, "verifier");
        let seen = seen.borrow();
        for (q, y0) in k.ys.iter().enumerate() {
            let o = &p.queries[0].pol_queries[q][0];
            truth(seen.iter().any(|(x, i)| *i == y0 & ((1 << k.steps[0]) - 1) && x.0 == o.0 && x.1 == o.1), &format!("query {q}: the first layer is checked at its position"));
            for s in 1..n {
                let o = &p.queries[s].pol_queries[q][0];
                let r = gls(&format!("r{s}."), 4);
                let y = y0 & ((1 << k.steps[s]) - 1);
                truth(checked.iter().any(|x| x.0 == r && x.1 == o.1 && x.2 == y && x.3 == o.0), &format!("query {q}: the row of layer {s} is opened at its position under its root"));
            }
        }
    });
}
/// each opening of each layer in turn does not verify
fn denied(h: &mut H, k: &Conf) {
    let k = k.clone();
    let n = (k.steps.len() - 1) * k.ys.len();
    for d in 0..n + k.ys.len() {
        h.case(&format!("denied.{}.{d}", k.name), || {
            reset(&k);
            if d < n {
                world(|w| w.deny = Some(d));
            }
            let p = symbolic(&k);
            // everything else is in order
            for (a, b, _) in meaning(&k, &p) {
                for (x, y) in c3(&a).iter().zip(c3(&b)) {
                    assume_eq(*x, y);
                }
            }
            let calls = RefCell::new(0);
            let r = fri(&k).verify(&mut Scribe, &p, |q, _| {
                let mut c = calls.borrow_mut();
                *c += 1;
                if d >= n && *c == d - n + 1 {
                    anyhow::bail!("opening does not verify")
                }
                Ok(split(&q[0].0))
            });
            truth(!matches!(r, Ok(true)), "a proof with an opening that does not verify is rejected");
        });
    }
}
/// parts missing or too long
fn malformed(h: &mut H, k: &Conf) {
    let k = k.clone();
    let n = k.steps.len();
    let mut kinds: Vec<(String, Box<dyn Fn(&mut FRIProof<F3G, Tree>)>)> = vec![];
    let full = 1usize << k.steps[n - 1];
    for l in [0, 1, full / 2, full - 1, full + 1, full + 2, 2 * full, 4 * full] {
        if l != full {
            kinds.push((format!("last{l}"), Box::new(move |p| p.last = (0..l).map(|i| f3(&format!("l{i}"))).collect())));
        }
    }
    for l in [0, n - 1, n + 1] {
        kinds.push((format!("layers{l}"), Box::new(move |p| p.queries.resize(l, p.queries[0].clone()))));
    }
    for s in 0..n {
        for l in [0, k.ys.len() - 1] {
            kinds.push((format!("queries{s}.{l}"), Box::new(move |p| p.queries[s].pol_queries.truncate(l))));
        }
    }
    for s in 1..n {
        let m = 1usize << (k.steps[s - 1] - k.steps[s]);
        kinds.push((format!("openings{s}"), Box::new(move |p| p.queries[s].pol_queries[0].clear())));
        for l in [0, 1, 3 * m - 3, 3 * m - 1, 3 * m + 1, 3 * m + 3, 6 * m, 12 * m] {
            kinds.push((format!("row{s}.{l}"), Box::new(move |p| p.queries[s].pol_queries[0][0].0 = gls("w", l))));
        }
    }
    for (name, f) in kinds {
        h.case(&format!("malformed.{}.{name}", k.name), || {
            reset(&k);
            let mut p = symbolic(&k);
            f(&mut p);
            let r = fri(&k).verify(&mut Scribe, &p, |q, _| Ok(split(&q[0].0)));
            truth(!matches!(r, Ok(true)), "a proof of another shape is rejected");
        });
    }
}

fn confs() -> Vec<Conf> {
    let k = |name, bits, ext, steps: &[usize], ys: &[usize]| Conf { name, bits, ext, steps: steps.to_vec(), ys: ys.to_vec() };
    vec![
        k("3-2", 2, 3, &[3, 2], &[5]),
        k("3-1", 2, 3, &[3, 1], &[0, 7]),
        k("4-2", 3, 4, &[4, 2], &[13, 6]),
        k("4-3-2", 3, 4, &[4, 3, 2], &[11]),
        k("4-3-2-1", 3, 4, &[4, 3, 2, 1], &[14]),
        k("5-3-1", 3, 5, &[5, 3, 1], &[27, 4]),
        k("5-2", 4, 5, &[5, 2], &[31]),
        k("2", 1, 2, &[2], &[3, 0]),
        k("4-1.blowup3", 1, 4, &[4, 1], &[9]),
    ]
}
pub fn p12(h: &mut H) {
    for k in confs() {
        let n = 1 << k.bits;
        for m in [1, n / 2, n - 1, n] {
            if m > 0 {
                complete(h, &k, m, 0);
            }
        }
        complete(h, &k, n, if k.ext <= 4 { n } else { 2 });
    }
}
pub fn p13(h: &mut H) {
    let mut ks = confs();
    // two folds by four in a row make polynomials too large for the exact comparison below
    ks.retain(|k| k.name != "5-3-1");
    ks.push(Conf { name: "5-4-3", bits: 3, ext: 5, steps: vec![5, 4, 3], ys: vec![27, 4] });
    for k in ks {
        sound(h, &k);
        denied(h, &k);
        malformed(h, &k);
    }
}
