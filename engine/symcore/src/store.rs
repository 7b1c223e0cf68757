//! Hash-consed symbolic terms over a prime field.
//!
//! A term is a linear form  c + sum c_i * a_i  over atoms a_i. An atom is a variable, an uninterpreted
//! application, or a product of integer powers of monic linear forms (negative power: inverse of
//! something known to be non-zero on the current path). The representation is canonical up to
//! distributivity; `expand` multiplies out (bounded) to decide polynomial identities.
use crate::coef::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type Map<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Lin = u32;
pub type Atom = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomK {
    Var(String),
    /// uninterpreted function: name and argument description (ids of canonical terms)
    Fun(String),
    Mono(Vec<(Lin, i32)>),
}

pub struct LinNode<C> {
    pub c: C,
    pub t: Rc<[(Atom, C)]>,
    pub ev: [C; 2],
}

pub struct AtomNode<C> {
    pub k: AtomK,
    pub ev: [C; 2],
}

/// key of an indeterminate in an expanded polynomial
pub type Key = u32; // atom id (Var/Fun), or a Mono atom id of form {(base,1)} for an opaque power base
pub type Monom = Vec<(Key, u32)>;
pub type Poly<C> = BTreeMap<Monom, C>;

#[derive(Clone)]
pub struct Rat<C> {
    pub num: Poly<C>,
    /// denominators: interned polynomial id -> exponent
    pub den: BTreeMap<u32, u32>,
}

pub struct Store<C: Coef> {
    pub lins: Vec<LinNode<C>>,
    lin_map: Map<(C, Rc<[(Atom, C)]>), Lin>,
    pub atoms: Vec<AtomNode<C>>,
    atom_map: HashMap<AtomK, Atom>,
    pub seed: u64,
    pub vars: Vec<(String, Atom)>,
    exp_memo: HashMap<Lin, Rc<Rat<C>>>,
    den_polys: Vec<Rc<Poly<C>>>,
    den_map: HashMap<Vec<(Monom, C)>, u32>,
    pub cap_pow: usize,
    pub cap_poly: usize,
    pub opaque_used: bool,
}

unsafe impl<C: Coef> Send for Store<C> {}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// the value a variable has at the evaluation point (also used by the native build)
pub fn default_value<C: Coef>(name: &str, seed: u64) -> C {
    C::seeded(hash_str(name) ^ seed.wrapping_mul(0x9E3779B97F4A7C15))
}

impl<C: Coef> Store<C> {
    pub fn new(seed: u64) -> Self {
        let mut s = Store {
            lins: vec![],
            lin_map: Default::default(),
            atoms: vec![],
            atom_map: Default::default(),
            seed,
            vars: vec![],
            exp_memo: Default::default(),
            den_polys: vec![],
            den_map: Default::default(),
            cap_pow: 3000,
            cap_poly: 60000,
            opaque_used: false,
        };
        s.constant(C::zero()); // id 0 is never a handle
        s
    }
    /// is this the id of a non-constant term (what a handle names)?
    pub fn is_handle(&self, id: u64) -> bool {
        id < self.lins.len() as u64 && !self.lins[id as usize].t.is_empty()
    }

    pub fn lin(&mut self, c: C, t: Vec<(Atom, C)>, ev: Option<[C; 2]>) -> Lin {
        let t: Rc<[(Atom, C)]> = t.into();
        let key = (c, t.clone());
        if let Some(&l) = self.lin_map.get(&key) {
            return l;
        }
        let ev = ev.unwrap_or_else(|| {
            let mut e = [c, c];
            for (a, k) in t.iter() {
                for j in 0..2 {
                    e[j] = e[j].add(self.atoms[*a as usize].ev[j].mul(*k));
                }
            }
            e
        });
        let id = self.lins.len() as u32;
        self.lins.push(LinNode { c, t, ev });
        self.lin_map.insert(key, id);
        id
    }

    pub fn constant(&mut self, c: C) -> Lin {
        self.lin(c, vec![], Some([c, c]))
    }

    pub fn as_const(&self, l: Lin) -> Option<C> {
        let n = &self.lins[l as usize];
        if n.t.is_empty() {
            Some(n.c)
        } else {
            None
        }
    }

    pub fn ev(&self, l: Lin) -> [C; 2] {
        self.lins[l as usize].ev
    }

    fn atom(&mut self, k: AtomK, ev: [C; 2]) -> Atom {
        if let Some(&a) = self.atom_map.get(&k) {
            return a;
        }
        let id = self.atoms.len() as u32;
        self.atoms.push(AtomNode { k: k.clone(), ev });
        self.atom_map.insert(k, id);
        id
    }

    pub fn atom_lin(&mut self, a: Atom) -> Lin {
        let ev = self.atoms[a as usize].ev;
        self.lin(C::zero(), vec![(a, C::one())], Some(ev))
    }

    pub fn var(&mut self, name: &str) -> Lin {
        let h = hash_str(name) ^ self.seed.wrapping_mul(0x9E3779B97F4A7C15);
        self.var_with(name, [default_value(name, self.seed), C::seeded(h ^ 0x5555_1234_9876_aaaa)])
    }

    pub fn var_with(&mut self, name: &str, ev: [C; 2]) -> Lin {
        let n = self.atoms.len();
        let a = self.atom(AtomK::Var(name.into()), ev);
        if a as usize == n {
            self.vars.push((name.into(), a));
        }
        self.atom_lin(a)
    }

    pub fn fun(&mut self, desc: &str, ev: [C; 2]) -> Lin {
        let a = self.atom(AtomK::Fun(desc.into()), ev);
        self.atom_lin(a)
    }

    pub fn fun_desc(&self, l: Lin) -> Option<&str> {
        let n = &self.lins[l as usize];
        if n.c.is_zero() && n.t.len() == 1 && n.t[0].1 == C::one() {
            if let AtomK::Fun(s) = &self.atoms[n.t[0].0 as usize].k {
                return Some(s);
            }
        }
        None
    }

    pub fn add_scaled(&mut self, a: Lin, b: Lin, k: C) -> Lin {
        let na = &self.lins[a as usize];
        let nb = &self.lins[b as usize];
        let one = k == C::one();
        let sc = |x: C| if one { x } else { x.mul(k) };
        let c = na.c.add(sc(nb.c));
        let ev = [na.ev[0].add(sc(nb.ev[0])), na.ev[1].add(sc(nb.ev[1]))];
        let (ta, tb) = (na.t.clone(), nb.t.clone());
        let mut t = Vec::with_capacity(ta.len() + tb.len());
        let (mut i, mut j) = (0, 0);
        while i < ta.len() && j < tb.len() {
            if ta[i].0 < tb[j].0 {
                t.push(ta[i]);
                i += 1;
            } else if ta[i].0 > tb[j].0 {
                t.push((tb[j].0, sc(tb[j].1)));
                j += 1;
            } else {
                let s = ta[i].1.add(sc(tb[j].1));
                if !s.is_zero() {
                    t.push((ta[i].0, s));
                }
                i += 1;
                j += 1;
            }
        }
        t.extend_from_slice(&ta[i..]);
        for x in &tb[j..] {
            t.push((x.0, sc(x.1)));
        }
        self.lin(c, t, Some(ev))
    }
    pub fn add(&mut self, a: Lin, b: Lin) -> Lin {
        self.add_scaled(a, b, C::one())
    }
    pub fn sub(&mut self, a: Lin, b: Lin) -> Lin {
        self.add_scaled(a, b, C::one().neg())
    }
    pub fn scale(&mut self, a: Lin, k: C) -> Lin {
        if k.is_zero() {
            return self.constant(C::zero());
        }
        if k == C::one() {
            return a;
        }
        let n = &self.lins[a as usize];
        let c = n.c.mul(k);
        let ev = [n.ev[0].mul(k), n.ev[1].mul(k)];
        let t = n.t.iter().map(|(a, x)| (*a, x.mul(k))).collect();
        self.lin(c, t, Some(ev))
    }
    pub fn neg(&mut self, a: Lin) -> Lin {
        self.scale(a, C::one().neg())
    }

    /// l = coefficient * product of base^exp
    fn factors(&mut self, l: Lin) -> (C, Vec<(Lin, i32)>) {
        let n = &self.lins[l as usize];
        if n.t.is_empty() {
            return (n.c, vec![]);
        }
        if n.c.is_zero() && n.t.len() == 1 {
            let (a, k) = n.t[0];
            if let AtomK::Mono(f) = &self.atoms[a as usize].k {
                return (k, f.clone());
            }
            let b = self.atom_lin(a);
            return (k, vec![(b, 1)]);
        }
        // monic: leading = first atom
        let k = n.t[0].1;
        let b = if k == C::one() { l } else { self.scale(l, k.inv().unwrap()) };
        (k, vec![(b, 1)])
    }

    /// the bases whose product is l up to a constant
    pub fn factor_bases(&mut self, l: Lin) -> Vec<Lin> {
        self.factors(l).1.into_iter().map(|x| x.0).collect()
    }

    fn from_factors(&mut self, k: C, f: Vec<(Lin, i32)>) -> Lin {
        if f.is_empty() {
            return self.constant(k);
        }
        if f.len() == 1 && f[0].1 == 1 {
            return self.scale(f[0].0, k);
        }
        let mut ev = [C::one(), C::one()];
        for (b, e) in &f {
            for j in 0..2 {
                ev[j] = ev[j].mul(self.lins[*b as usize].ev[j].powi(*e));
            }
        }
        let a = self.atom(AtomK::Mono(f), ev);
        let l = self.atom_lin(a);
        self.scale(l, k)
    }

    pub fn mul(&mut self, a: Lin, b: Lin) -> Lin {
        if let Some(c) = self.as_const(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, c);
        }
        let (ka, fa) = self.factors(a);
        let (kb, fb) = self.factors(b);
        let mut f: Vec<(Lin, i32)> = Vec::with_capacity(fa.len() + fb.len());
        let (mut i, mut j) = (0, 0);
        while i < fa.len() || j < fb.len() {
            if j >= fb.len() || (i < fa.len() && fa[i].0 < fb[j].0) {
                f.push(fa[i]);
                i += 1;
            } else if i >= fa.len() || fa[i].0 > fb[j].0 {
                f.push(fb[j]);
                j += 1;
            } else {
                let e = fa[i].1 + fb[j].1;
                if e != 0 {
                    f.push((fa[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        self.from_factors(ka.mul(kb), f)
    }

    /// caller has established l != 0
    pub fn inv(&mut self, l: Lin) -> Lin {
        let (k, f) = self.factors(l);
        let f = f.into_iter().map(|(b, e)| (b, -e)).collect();
        self.from_factors(k.inv().expect("inverse of constant zero"), f)
    }

    // ---------------------------------------------------------------- expansion

    fn pmul(&self, a: &Poly<C>, b: &Poly<C>) -> Option<Poly<C>> {
        let mut r: Poly<C> = BTreeMap::new();
        if a.len() * b.len() > self.cap_poly * 40 {
            return None;
        }
        for (ma, ca) in a {
            for (mb, cb) in b {
                let mut m = Vec::with_capacity(ma.len() + mb.len());
                let (mut i, mut j) = (0, 0);
                while i < ma.len() || j < mb.len() {
                    if j >= mb.len() || (i < ma.len() && ma[i].0 < mb[j].0) {
                        m.push(ma[i]);
                        i += 1;
                    } else if i >= ma.len() || ma[i].0 > mb[j].0 {
                        m.push(mb[j]);
                        j += 1;
                    } else {
                        m.push((ma[i].0, ma[i].1 + mb[j].1));
                        i += 1;
                        j += 1;
                    }
                }
                let e = r.entry(m).or_insert(C::zero());
                *e = e.add(ca.mul(*cb));
            }
            if r.len() > self.cap_poly {
                return None;
            }
        }
        r.retain(|_, c| !c.is_zero());
        Some(r)
    }

    fn ppow(&self, a: &Poly<C>, e: u32, cap: usize) -> Option<Poly<C>> {
        // estimated size binom(n+e-1, e)
        let mut est = 1f64;
        for i in 0..e {
            est = est * (a.len() as f64 + i as f64) / (i as f64 + 1.0);
        }
        if est > cap as f64 {
            return None;
        }
        let mut r: Poly<C> = BTreeMap::new();
        r.insert(vec![], C::one());
        for _ in 0..e {
            r = self.pmul(&r, a)?;
        }
        Some(r)
    }

    fn intern_den(&mut self, p: &Poly<C>) -> (u32, C) {
        // monic
        let (_, &lc) = p.iter().next_back().unwrap();
        let il = lc.inv().unwrap();
        let v: Vec<(Monom, C)> = p.iter().map(|(m, c)| (m.clone(), c.mul(il))).collect();
        if let Some(&i) = self.den_map.get(&v) {
            return (i, lc);
        }
        let id = self.den_polys.len() as u32;
        self.den_polys.push(Rc::new(v.iter().cloned().collect()));
        self.den_map.insert(v, id);
        (id, lc)
    }

    fn opaque_key(&mut self, base: Lin) -> Key {
        self.opaque_used = true;
        let ev = self.lins[base as usize].ev;
        self.atom(AtomK::Mono(vec![(base, 1)]), ev)
    }

    fn rat_mul(&mut self, a: &Rat<C>, b: &Rat<C>) -> Option<Rat<C>> {
        let num = self.pmul(&a.num, &b.num)?;
        let mut den = a.den.clone();
        for (k, e) in &b.den {
            *den.entry(*k).or_insert(0) += e;
        }
        Some(Rat { num, den })
    }

    fn rat_add(&mut self, a: &Rat<C>, b: &Rat<C>) -> Option<Rat<C>> {
        if a.den == b.den {
            let mut num = a.num.clone();
            for (m, c) in &b.num {
                let e = num.entry(m.clone()).or_insert(C::zero());
                *e = e.add(*c);
            }
            num.retain(|_, c| !c.is_zero());
            return Some(Rat { num, den: a.den.clone() });
        }
        let mut den = a.den.clone();
        for (k, e) in &b.den {
            let x = den.entry(*k).or_insert(0);
            *x = (*x).max(*e);
        }
        let mut na = a.num.clone();
        let mut nb = b.num.clone();
        for (k, e) in &den {
            let d = self.den_polys[*k as usize].clone();
            for _ in 0..(e - a.den.get(k).copied().unwrap_or(0)) {
                na = self.pmul(&na, &d)?;
            }
            for _ in 0..(e - b.den.get(k).copied().unwrap_or(0)) {
                nb = self.pmul(&nb, &d)?;
            }
        }
        for (m, c) in nb {
            let e = na.entry(m).or_insert(C::zero());
            *e = e.add(c);
        }
        na.retain(|_, c| !c.is_zero());
        Some(Rat { num: na, den })
    }

    fn single(&self, k: Key, e: u32) -> Poly<C> {
        let mut p = BTreeMap::new();
        p.insert(vec![(k, e)], C::one());
        p
    }

    /// base^e as rational expression; a power too large to multiply out stays opaque
    fn rat_pow(&mut self, base: Lin, e: i32) -> Rat<C> {
        let r = self.expand(base);
        let ae = e.unsigned_abs();
        let opaque = |s: &mut Self| {
            let k = s.opaque_key(base);
            if e > 0 {
                Rat { num: s.single(k, ae), den: Default::default() }
            } else {
                let p = s.single(k, 1);
                let (id, _) = s.intern_den(&p);
                let mut num = BTreeMap::new();
                num.insert(vec![], C::one());
                Rat { num, den: [(id, ae)].into_iter().collect() }
            }
        };
        if e > 0 {
            match self.ppow(&r.num, ae, self.cap_pow) {
                Some(num) => {
                    let den = r.den.iter().map(|(k, x)| (*k, x * ae)).collect();
                    Rat { num, den }
                }
                None => opaque(self),
            }
        } else {
            if r.num.is_empty() || r.num.len() > self.cap_pow {
                return opaque(self);
            }
            // (D/N)^ae
            let (id, lc) = self.intern_den(&r.num);
            let mut num: Poly<C> = BTreeMap::new();
            num.insert(vec![], lc.inv().unwrap().pow(ae as u64));
            for (k, x) in r.den.clone() {
                let d = self.den_polys[k as usize].clone();
                for _ in 0..(x * ae) {
                    match self.pmul(&num, &d) {
                        Some(n) => num = n,
                        None => return opaque(self),
                    }
                }
            }
            Rat { num, den: [(id, ae)].into_iter().collect() }
        }
    }

    pub fn expand(&mut self, l: Lin) -> Rc<Rat<C>> {
        if let Some(r) = self.exp_memo.get(&l) {
            return r.clone();
        }
        let (c, t) = {
            let n = &self.lins[l as usize];
            (n.c, n.t.clone())
        };
        let mut acc = Rat { num: BTreeMap::new(), den: BTreeMap::new() };
        if !c.is_zero() {
            acc.num.insert(vec![], c);
        }
        for (a, k) in t.iter() {
            let f = match &self.atoms[*a as usize].k {
                AtomK::Mono(f) => Some(f.clone()),
                _ => None,
            };
            let mut r = match f {
                None => Rat { num: self.single(*a, 1), den: Default::default() },
                Some(f) => {
                    let mut r = Rat { num: [(vec![], C::one())].into_iter().collect(), den: Default::default() };
                    for (b, e) in &f {
                        let x = self.rat_pow(*b, *e);
                        match self.rat_mul(&r, &x) {
                            Some(y) => r = y,
                            None => {
                                // give up multiplying out this product: keep the whole atom opaque
                                self.opaque_used = true;
                                r = Rat { num: self.single(*a, 1), den: Default::default() };
                                break;
                            }
                        }
                    }
                    r
                }
            };
            if *k != C::one() {
                for v in r.num.values_mut() {
                    *v = v.mul(*k);
                }
            }
            match self.rat_add(&acc, &r) {
                Some(x) => acc = x,
                None => {
                    self.opaque_used = true;
                    let mut num = BTreeMap::new();
                    let kk = self.opaque_key(l);
                    num.insert(vec![(kk, 1)], C::one());
                    acc = Rat { num, den: Default::default() };
                    break;
                }
            }
        }
        // cancel denominators that divide trivially (numerator zero)
        if acc.num.is_empty() {
            acc.den.clear();
        }
        let r = Rc::new(acc);
        self.exp_memo.insert(l, r.clone());
        r
    }

    /// cross-multiplied numerators of a and b over a common denominator
    pub fn cross(&mut self, a: Lin, b: Lin) -> Option<(Poly<C>, Poly<C>)> {
        let ra = self.expand(a);
        let rb = self.expand(b);
        let mut na = ra.num.clone();
        let mut nb = rb.num.clone();
        let keys: Vec<u32> = ra.den.keys().chain(rb.den.keys()).copied().collect();
        let mut done = std::collections::BTreeSet::new();
        for k in keys {
            if !done.insert(k) {
                continue;
            }
            let ea = ra.den.get(&k).copied().unwrap_or(0);
            let eb = rb.den.get(&k).copied().unwrap_or(0);
            let d = self.den_polys[k as usize].clone();
            for _ in ea..eb {
                na = self.pmul(&na, &d)?;
            }
            for _ in eb..ea {
                nb = self.pmul(&nb, &d)?;
            }
        }
        Some((na, nb))
    }

    pub fn show(&self, l: Lin) -> String {
        let n = &self.lins[l as usize];
        let mut s = n.c.dec();
        for (a, k) in n.t.iter().take(12) {
            s.push_str(&format!(" + {}*{}", k.dec(), self.show_atom(*a)));
        }
        if n.t.len() > 12 {
            s.push_str(&format!(" + ...({} terms)", n.t.len()));
        }
        s
    }
    pub fn show_atom(&self, a: Atom) -> String {
        match &self.atoms[a as usize].k {
            AtomK::Var(s) | AtomK::Fun(s) => s.clone(),
            AtomK::Mono(f) => {
                let v: Vec<String> = f.iter().take(4).map(|(b, e)| format!("({})^{e}", self.show_short(*b))).collect();
                v.join("*")
            }
        }
    }
    fn show_short(&self, l: Lin) -> String {
        let n = &self.lins[l as usize];
        if n.t.len() <= 3 {
            let mut v: Vec<String> = n.t.iter().map(|(a, k)| {
                let nm = match &self.atoms[*a as usize].k { AtomK::Var(s) | AtomK::Fun(s) => s.clone(), _ => format!("m{a}") };
                if *k == C::one() { nm } else { format!("{}*{}", k.dec(), nm) }
            }).collect();
            if !n.c.is_zero() { v.insert(0, n.c.dec()); }
            v.join("+")
        } else {
            format!("lin{l}[{}]", n.t.len())
        }
    }
}
