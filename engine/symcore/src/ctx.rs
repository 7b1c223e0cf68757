//! Path exploration, path condition, obligations.
use crate::coef::*;
use crate::smt::*;
use crate::store::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, MutexGuard, OnceLock};

pub type Bn = crate::coef::bn::Fr;
pub type Bls = crate::coef::bls::Fr;

/// thrown when the path condition became unsatisfiable
pub struct Infeasible;
/// thrown when the code under test does something with a symbolic value the engine does not model
pub struct Escape(pub String);

/// decision procedure for one field: path equalities as substitutions plus a reduced linear basis
pub struct Hyps<C: Coef> {
    pub eqs: Vec<Lin>,
    pub neqs: Vec<Lin>,
    subst: Vec<(Key, Poly<C>)>,
    basis: Vec<(Monom, Poly<C>)>,
}

impl<C: Coef> Default for Hyps<C> {
    fn default() -> Self {
        Hyps { eqs: vec![], neqs: vec![], subst: vec![], basis: vec![] }
    }
}

fn padd<C: Coef>(a: &mut Poly<C>, b: &Poly<C>, k: C) {
    for (m, c) in b {
        let x = c.mul(k);
        match a.get_mut(m) {
            Some(e) => {
                *e = e.add(x);
                if e.is_zero() {
                    a.remove(m);
                }
            }
            None => {
                if !x.is_zero() {
                    a.insert(m.clone(), x);
                }
            }
        }
    }
}

fn pmul<C: Coef>(a: &Poly<C>, b: &Poly<C>) -> Poly<C> {
    let mut r: Poly<C> = BTreeMap::new();
    for (ma, ca) in a {
        for (mb, cb) in b {
            let mut m: BTreeMap<Key, u32> = ma.iter().copied().collect();
            for (k, e) in mb {
                *m.entry(*k).or_insert(0) += e;
            }
            let e = r.entry(m.into_iter().collect()).or_insert(C::zero());
            *e = e.add(ca.mul(*cb));
        }
    }
    r.retain(|_, c| !c.is_zero());
    r
}

fn substitute<C: Coef>(p: &Poly<C>, k: Key, by: &Poly<C>) -> Poly<C> {
    if !p.keys().any(|m| m.iter().any(|x| x.0 == k)) {
        return p.clone();
    }
    let mut r: Poly<C> = BTreeMap::new();
    for (m, c) in p {
        let e = m.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(0);
        let rest: Monom = m.iter().filter(|x| x.0 != k).copied().collect();
        let mut t: Poly<C> = [(rest, *c)].into_iter().collect();
        for _ in 0..e {
            t = pmul(&t, by);
        }
        padd(&mut r, &t, C::one());
    }
    r
}

impl<C: Coef> Hyps<C> {
    pub fn is_empty(&self) -> bool {
        self.subst.is_empty() && self.basis.is_empty()
    }
    fn sub_all(&self, mut p: Poly<C>) -> Poly<C> {
        for (k, by) in &self.subst {
            p = substitute(&p, *k, by);
        }
        p
    }
    fn reduce(&self, mut p: Poly<C>) -> Poly<C> {
        for (m, b) in &self.basis {
            if let Some(c) = p.get(m).copied() {
                padd(&mut p, b, c.neg());
            }
        }
        p
    }
    /// adds poly = 0; false when contradictory
    fn add_poly(&mut self, st: &Store<C>, p: Poly<C>) -> bool {
        let p = self.reduce(self.sub_all(p));
        if p.is_empty() {
            return true;
        }
        if p.len() == 1 && p.contains_key(&vec![]) {
            return false;
        }
        // a variable isolated in one linear monomial?
        let mut occ: HashMap<Key, (u32, bool)> = HashMap::new();
        for m in p.keys() {
            for (k, e) in m {
                let x = occ.entry(*k).or_insert((0, true));
                x.0 += 1;
                if *e != 1 || m.len() != 1 {
                    x.1 = false;
                }
            }
        }
        let cand = p
            .keys()
            .rev()
            .filter(|m| m.len() == 1)
            .map(|m| m[0].0)
            .find(|k| occ[k] == (1, true) && matches!(st.atoms[*k as usize].k, AtomK::Var(_)));
        if let Some(k) = cand {
            let c = p[&vec![(k, 1)]];
            let ic = c.inv().unwrap().neg();
            let mut by: Poly<C> = BTreeMap::new();
            for (m, x) in &p {
                if m.as_slice() != [(k, 1)] {
                    by.insert(m.clone(), x.mul(ic));
                }
            }
            for (_, b) in self.subst.iter_mut() {
                *b = substitute(b, k, &by);
            }
            let old = std::mem::take(&mut self.basis);
            self.subst.push((k, by));
            for (_, b) in old {
                if !self.add_poly(st, b) {
                    return false;
                }
            }
            return true;
        }
        let (m, c) = p.iter().next_back().map(|(m, c)| (m.clone(), *c)).unwrap();
        let ic = c.inv().unwrap();
        let p: Poly<C> = p.into_iter().map(|(m, x)| (m, x.mul(ic))).collect();
        for (_, b) in self.basis.iter_mut() {
            if let Some(c) = b.get(&m).copied() {
                padd(b, &p, c.neg());
            }
        }
        self.basis.push((m, p));
        true
    }
}

pub struct FieldCtx<C: Coef> {
    pub st: Store<C>,
    pub hy: Hyps<C>,
    pend: Vec<(Lin, Lin, String)>,
}

impl<C: Coef> FieldCtx<C> {
    fn new(seed: u64) -> Self {
        FieldCtx { st: Store::new(seed), hy: Hyps::default(), pend: vec![] }
    }

    /// Some(b): decided under the path condition
    fn decide(&mut self, d: Lin) -> Option<bool> {
        if let Some(c) = self.st.as_const(d) {
            return Some(c.is_zero());
        }
        let ev = self.st.ev(d);
        let identically_nonzero_somewhere = !ev[0].is_zero() || !ev[1].is_zero();
        if !identically_nonzero_somewhere {
            let r = self.st.expand(d);
            if r.num.is_empty() {
                return Some(true);
            }
        }
        if self.hy.neqs.contains(&d) {
            return Some(false);
        }
        let nd = self.st.neg(d);
        if self.hy.neqs.contains(&nd) {
            return Some(false);
        }
        if self.hy.eqs.contains(&d) || self.hy.eqs.contains(&nd) {
            return Some(true);
        }
        if self.nonzero(d, 0) {
            return Some(false);
        }
        if !self.hy.is_empty() {
            let r = self.st.expand(d);
            let p = self.hy.reduce(self.hy.sub_all(r.num.clone()));
            if p.is_empty() {
                return Some(true);
            }
            if p.len() == 1 && p.contains_key(&vec![]) {
                return Some(false);
            }
        }
        None
    }

    fn monic(&self, p: &Poly<C>) -> Poly<C> {
        match p.iter().next_back() {
            None => p.clone(),
            Some((_, c)) => {
                let ic = c.inv().unwrap();
                p.iter().map(|(m, x)| (m.clone(), x.mul(ic))).collect()
            }
        }
    }

    /// is d a non-zero constant, or up to a constant a product of things assumed non-zero?
    fn nonzero(&mut self, d: Lin, depth: usize) -> bool {
        if let Some(c) = self.st.as_const(d) {
            return !c.is_zero();
        }
        let fs = self.st.factor_bases(d);
        if fs.len() > 1 || (fs.len() == 1 && fs[0] != d && depth < 4) {
            if fs.iter().all(|b| self.nonzero(*b, depth + 1)) {
                return true;
            }
        }
        if self.hy.neqs.is_empty() {
            return false;
        }
        let neqs = self.hy.neqs.clone();
        let nd = self.st.neg(d);
        if neqs.contains(&d) || neqs.contains(&nd) {
            return true;
        }
        let r = self.st.expand(d);
        if r.num.len() > 4000 {
            return false;
        }
        let p = self.monic(&self.hy.reduce(self.hy.sub_all(r.num.clone())));
        if p.is_empty() {
            return false;
        }
        let mut vars = std::collections::BTreeSet::new();
        for n in neqs {
            let rn = self.st.expand(n);
            let q = self.monic(&self.hy.reduce(self.hy.sub_all(rn.num.clone())));
            if q == p {
                return true;
            }
            if q.len() == 1 {
                for (k, _) in q.keys().next().unwrap() {
                    vars.insert(*k);
                }
            }
        }
        p.len() == 1 && p.keys().next().unwrap().iter().all(|(k, _)| vars.contains(k))
    }

    fn add_eq(&mut self, d: Lin) -> bool {
        self.hy.eqs.push(d);
        let r = self.st.expand(d);
        let p = r.num.clone();
        let FieldCtx { st, hy, .. } = self;
        hy.add_poly(st, p)
    }

    fn smt_poly(&self, p: &Poly<C>, names: &mut BTreeMap<Monom, usize>, s: &mut String) {
        if p.is_empty() {
            s.push('0');
            return;
        }
        s.push_str("(+ 0");
        for (m, c) in p {
            if m.is_empty() {
                s.push(' ');
                s.push_str(&c.dec());
            } else {
                let n = names.len();
                let id = *names.entry(m.clone()).or_insert(n);
                s.push_str(" (* ");
                s.push_str(&c.dec());
                s.push_str(&format!(" m{id})"));
            }
        }
        s.push(')');
    }

    /// asks the solver whether every a_i = b_i follows from the path condition
    fn query(&mut self, obs: &[(Lin, Lin, String)], smt: &mut Smt) -> Verdict {
        let mut names = BTreeMap::new();
        let mut goals = String::new();
        for (a, b, _) in obs {
            let (pa, pb) = if a == b {
                // structurally equal: compare as linear forms over opaque atoms
                let f = |s: &Self, l: Lin| -> Poly<C> {
                    let n = &s.st.lins[l as usize];
                    let mut p: Poly<C> = n.t.iter().map(|(a, c)| (vec![(*a, 1u32)], *c)).collect();
                    if !n.c.is_zero() {
                        p.insert(vec![], n.c);
                    }
                    p
                };
                (f(self, *a), f(self, *b))
            } else {
                match self.st.cross(*a, *b) {
                    Some((x, y)) => (self.hy.reduce(self.hy.sub_all(x)), self.hy.reduce(self.hy.sub_all(y))),
                    None => return Verdict::Unknown,
                }
            };
            goals.push_str("(not (= (mod (- ");
            self.smt_poly(&pa, &mut names, &mut goals);
            goals.push(' ');
            self.smt_poly(&pb, &mut names, &mut goals);
            goals.push_str(&format!(") {}) 0))\n", C::modulus()));
        }
        let mut body = String::new();
        let mut hyp = String::new();
        for (i, (m, p)) in self.hy.basis.iter().enumerate() {
            let mut rest = p.clone();
            rest.remove(m);
            let n = names.len();
            let id = *names.entry(m.clone()).or_insert(n);
            hyp.push_str(&format!("(assert (= m{id} (- (* {} k{i}) ", C::modulus()));
            self.smt_poly(&rest, &mut names, &mut hyp);
            hyp.push_str(")))\n");
            body.push_str(&format!("(declare-const k{i} Int)\n"));
        }
        for i in 0..names.len() {
            body.push_str(&format!("(declare-const m{i} Int)\n"));
        }
        body.push_str(&hyp);
        body.push_str("(assert (or false\n");
        body.push_str(&goals);
        body.push_str("))");
        smt.check(&body)
    }

    fn eval_poly(&mut self, p: &Poly<C>, asg: &mut Assign<C>) -> C {
        let mut r = C::zero();
        for (m, c) in p {
            let mut t = *c;
            for (k, e) in m {
                t = t.mul(self.eval_atom(*k, asg).pow(*e as u64));
            }
            r = r.add(t);
        }
        r
    }
    fn eval_atom(&mut self, a: Atom, asg: &mut Assign<C>) -> C {
        if let Some(v) = asg.atoms.get(&a) {
            return *v;
        }
        let k = self.st.atoms[a as usize].k.clone();
        let v = match k {
            AtomK::Var(_) | AtomK::Fun(_) => self.st.atoms[a as usize].ev[0],
            AtomK::Mono(f) => {
                let mut r = C::one();
                for (b, e) in f {
                    let x = self.eval_lin(b, asg);
                    if e < 0 && x.is_zero() {
                        asg.bad = true;
                        return C::zero();
                    }
                    r = r.mul(x.powi(e));
                }
                r
            }
        };
        asg.atoms.insert(a, v);
        v
    }
    pub fn eval_lin(&mut self, l: Lin, asg: &mut Assign<C>) -> C {
        let (c, t) = {
            let n = &self.st.lins[l as usize];
            (n.c, n.t.clone())
        };
        let mut r = c;
        for (a, k) in t.iter() {
            r = r.add(self.eval_atom(*a, asg).mul(*k));
        }
        r
    }

    /// concrete variable values satisfying the path condition and (if given) making goal non-zero
    pub fn concretize(&mut self, goal: Option<(Lin, Lin)>) -> Option<BTreeMap<String, C>> {
        let hyps: Vec<Lin> = self.hy.eqs.clone();
        let neqs = self.hy.neqs.clone();
        let vars = self.st.vars.clone();
        for attempt in 0..40u64 {
            let mut asg = Assign { atoms: HashMap::new(), bad: false };
            let mut vals: BTreeMap<Atom, C> = BTreeMap::new();
            for (i, (_, a)) in vars.iter().enumerate() {
                let ev = self.st.atoms[*a as usize].ev;
                let v = match attempt {
                    0 => ev[0],
                    1 => ev[1],
                    _ => C::seeded(attempt.wrapping_mul(0x1000193) ^ ((i as u64) << 20) ^ self.st.seed),
                };
                vals.insert(*a, v);
            }
            let set = |vals: &BTreeMap<Atom, C>| Assign { atoms: vals.iter().map(|(a, c)| (*a, *c)).collect(), bad: false };
            // defined variables
            let subst = self.hy.subst.clone();
            let mut fixed: std::collections::HashSet<Atom> = subst.iter().map(|x| x.0).collect();
            // remaining equations: solve for a variable of degree one
            let basis = self.hy.basis.clone();
            let mut ok = true;
            for (_, p) in &basis {
                let mut a2 = set(&vals);
                if self.eval_poly(p, &mut a2).is_zero() {
                    continue;
                }
                let mut keys: Vec<Key> = p.keys().flatten().filter(|(_, e)| *e == 1).map(|x| x.0).collect();
                keys.sort();
                keys.dedup();
                let mut solved = false;
                for k in keys {
                    if fixed.contains(&k) || !matches!(self.st.atoms[k as usize].k, AtomK::Var(_)) {
                        continue;
                    }
                    if p.keys().flatten().any(|(x, e)| *x == k && *e > 1) {
                        continue;
                    }
                    let mut coef: Poly<C> = BTreeMap::new();
                    let mut rest: Poly<C> = BTreeMap::new();
                    for (m, c) in p {
                        if m.iter().any(|x| x.0 == k) {
                            coef.insert(m.iter().filter(|x| x.0 != k).copied().collect(), *c);
                        } else {
                            rest.insert(m.clone(), *c);
                        }
                    }
                    let cv = self.eval_poly(&coef, &mut a2);
                    if cv.is_zero() {
                        continue;
                    }
                    let rv = self.eval_poly(&rest, &mut a2);
                    vals.insert(k, rv.neg().mul(cv.inv().unwrap()));
                    fixed.insert(k);
                    solved = true;
                    break;
                }
                if !solved {
                    ok = false;
                }
            }
            if !ok {
                continue;
            }
            for (k, by) in subst.iter().rev() {
                let mut a2 = set(&vals);
                let v = self.eval_poly(by, &mut a2);
                vals.insert(*k, v);
            }
            asg.atoms = vals.iter().map(|(a, c)| (*a, *c)).collect();
            let good = hyps.iter().all(|h| self.eval_lin(*h, &mut asg).is_zero())
                && neqs.iter().all(|h| !self.eval_lin(*h, &mut asg).is_zero());
            if !good || asg.bad {
                continue;
            }
            if let Some((a, b)) = goal {
                if self.eval_lin(a, &mut asg) == self.eval_lin(b, &mut asg) {
                    continue;
                }
            }
            return Some(vars.iter().map(|(n, a)| (n.clone(), vals[a])).collect());
        }
        None
    }
}

pub struct Assign<C> {
    atoms: HashMap<Atom, C>,
    bad: bool,
}

pub struct Ctx {
    pub gl: FieldCtx<Gl>,
    pub bn: FieldCtx<Bn>,
    pub bls: FieldCtx<Bls>,
    pub smt: Smt,
    prefix: Vec<(bool, bool)>,
    trail: Vec<(bool, bool)>, // (taken, alternative still open)
    concolic: bool,
    case: String,
    pub allow_as_int: bool,
    pub generic: bool,
    obs: Vec<String>,
    pub seed: u64,
    pub report: Report,
    max_paths: usize,
}

#[derive(Default)]
pub struct Report {
    pub cases: Vec<Value>,
    pub candidates: Vec<Value>,
    pub inconclusive: Vec<String>,
    pub obligations: u64,
    pub paths: u64,
    pub forks: u64,
    pub generic_assumptions: u64,
    pub case_obs: u64,
    pub constants: u64,
}

impl Report {
    /// a few candidates per case, so that one failing case does not hide another
    pub fn room(&self, case: &str) -> bool {
        self.candidates.len() < 60 && self.candidates.iter().filter(|c| c["case"] == case).count() < 3
    }
}

static CTX: OnceLock<Mutex<Ctx>> = OnceLock::new();

pub fn ctx() -> MutexGuard<'static, Ctx> {
    let m = CTX.get_or_init(|| {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Mutex::new(Ctx {
            gl: FieldCtx::new(seed),
            bn: FieldCtx::new(seed),
            bls: FieldCtx::new(seed),
            smt: Smt::new(),
            prefix: vec![],
            trail: vec![],
            concolic: true,
            case: String::new(),
            allow_as_int: false,
            generic: false,
            obs: vec![],
            seed,
            report: Report::default(),
            max_paths: 4000,
        })
    });
    match m.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

pub fn escape(what: &str) -> ! {
    std::panic::panic_any(Escape(what.to_string()))
}

macro_rules! field_api {
    ($m:ident, $f:ident, $C:ty) => {
        pub mod $m {
            use super::*;
            pub fn var(name: &str) -> Lin {
                ctx().$f.st.var(name)
            }
            pub fn add(a: Lin, b: Lin) -> Lin {
                ctx().$f.st.add(a, b)
            }
            pub fn sub(a: Lin, b: Lin) -> Lin {
                ctx().$f.st.sub(a, b)
            }
            pub fn mul(a: Lin, b: Lin) -> Lin {
                ctx().$f.st.mul(a, b)
            }
            pub fn neg(a: Lin) -> Lin {
                ctx().$f.st.neg(a)
            }
            pub fn scale(a: Lin, k: $C) -> Lin {
                ctx().$f.st.scale(a, k)
            }
            pub fn constant(c: $C) -> Lin {
                ctx().$f.st.constant(c)
            }
            pub fn as_const(l: Lin) -> Option<$C> {
                ctx().$f.st.as_const(l)
            }
            pub fn show(l: Lin) -> String {
                ctx().$f.st.show(l)
            }
            /// inverse; the caller has forked on zero
            pub fn inv(a: Lin) -> Lin {
                ctx().$f.st.inv(a)
            }
            pub fn eq(a: Lin, b: Lin) -> bool {
                let mut c = ctx();
                let d = c.$f.st.sub(a, b);
                if let Some(r) = c.$f.decide(d) {
                    return r;
                }
                if c.generic {
                    c.report.generic_assumptions += 1;
                    if !c.$f.hy.neqs.contains(&d) {
                        c.$f.hy.neqs.push(d);
                    }
                    return false;
                }
                c.report.forks += 1;
                let pos = c.trail.len();
                c.flush(); // obligations so far are judged under the condition so far
                let evz = c.$f.st.ev(d)[0].is_zero();
                // the branch of the evaluation point first, so that its path has a witness at hand
                let (taken, fresh) = if pos < c.prefix.len() { c.prefix[pos] } else { (evz, true) };
                if evz != taken {
                    c.concolic = false;
                }
                c.trail.push((taken, fresh));
                if taken {
                    if !c.$f.add_eq(d) {
                        drop(c);
                        std::panic::panic_any(Infeasible);
                    }
                    let ne = c.$f.hy.neqs.clone();
                    for n in ne {
                        if c.$f.decide_eq_only(n) == Some(true) {
                            drop(c);
                            std::panic::panic_any(Infeasible);
                        }
                    }
                } else {
                    c.$f.hy.neqs.push(d);
                }
                taken
            }
            /// add a = b to the path condition
            pub fn assume_eq(a: Lin, b: Lin) {
                let mut c = ctx();
                c.flush();
                let d = c.$f.st.sub(a, b);
                if !c.$f.st.ev(d)[0].is_zero() {
                    c.concolic = false;
                }
                if !c.$f.add_eq(d) {
                    drop(c);
                    std::panic::panic_any(Infeasible);
                }
            }
            pub fn assume_ne(a: Lin, b: Lin) {
                let mut c = ctx();
                let d = c.$f.st.sub(a, b);
                if c.$f.decide(d) == Some(true) {
                    drop(c);
                    std::panic::panic_any(Infeasible);
                }
                if c.$f.st.ev(d)[0].is_zero() {
                    c.concolic = false;
                }
                c.$f.hy.neqs.push(d);
            }
            pub fn prove_eq(a: Lin, b: Lin, label: &str) {
                let mut c = ctx();
                c.report.obligations += 1;
                if c.report.case_obs < 20000 {
                    let (x, y) = (c.$f.st.ev(a)[0].dec(), c.$f.st.ev(b)[0].dec());
                    c.obs.push(x);
                    c.obs.push(y);
                }
                c.report.case_obs += 1;
                // two equal constants need no solver
                if a == b && c.$f.st.as_const(a).is_some() {
                    c.report.constants += 1;
                    return;
                }
                c.$f.pend.push((a, b, label.to_string()));
                if c.$f.pend.len() >= 400 {
                    c.flush();
                }
            }
            pub fn observe(a: Lin) {
                let mut c = ctx();
                let x = c.$f.st.ev(a)[0].dec();
                c.obs.push(x);
            }
        }
    };
}
field_api!(gl, gl, Gl);
field_api!(bn, bn, Bn);
field_api!(bls, bls, Bls);

impl<C: Coef> FieldCtx<C> {
    fn decide_eq_only(&mut self, d: Lin) -> Option<bool> {
        if let Some(c) = self.st.as_const(d) {
            return Some(c.is_zero());
        }
        let r = self.st.expand(d);
        let p = self.hy.reduce(self.hy.sub_all(r.num.clone()));
        if p.is_empty() {
            return Some(true);
        }
        None
    }
    fn flush(&mut self, smt: &mut Smt, case: &str, rep: &mut Report) {
        let pend = std::mem::take(&mut self.pend);
        if pend.is_empty() {
            return;
        }
        // bounded batches
        for batch in pend.chunks(100) {
            let v = self.query(batch, smt);
            if v == Verdict::Unsat {
                continue;
            }
            for ob in batch {
                if !rep.room(case) {
                    return;
                }
                let v = self.query(std::slice::from_ref(ob), smt);
                if v == Verdict::Unsat {
                    continue;
                }
                match self.concretize(Some((ob.0, ob.1))) {
                    Some(vals) => {
                        let m: serde_json::Map<String, Value> =
                            vals.into_iter().map(|(k, v)| (format!("{}:{}", C::NAME, k), Value::String(v.dec()))).collect();
                        rep.candidates.push(json!({
                            "case": case, "label": ob.2, "kind": "equality", "solver": format!("{v:?}"),
                            "lhs": self.st.show(ob.0), "rhs": self.st.show(ob.1), "assign": m}));
                    }
                    None => rep.inconclusive.push(format!("{case}: {}: solver {v:?}, no concrete assignment found", ob.2)),
                }
            }
        }
    }
    fn reset_path(&mut self) {
        self.hy = Hyps::default();
        self.pend.clear();
    }
}

impl Ctx {
    pub fn flush(&mut self) {
        let Ctx { gl, bn, bls, smt, case, report, .. } = self;
        gl.flush(smt, case, report);
        bn.flush(smt, case, report);
        bls.flush(smt, case, report);
    }
    pub fn full_assign(&mut self) -> Option<serde_json::Map<String, Value>> {
        let mut m = serde_json::Map::new();
        macro_rules! one {
            ($f:ident) => {
                for (k, v) in self.$f.concretize(None)? {
                    m.insert(format!("{}:{}", stringify!($f), k), Value::String(v.dec()));
                }
            };
        }
        one!(gl);
        one!(bn);
        one!(bls);
        Some(m)
    }
}

/// a boolean obligation on the current path
pub fn prove_true(b: bool, label: &str) {
    let mut c = ctx();
    c.report.obligations += 1;
    c.obs.push(format!("{b}"));
    if !b {
        // is the path condition satisfiable? a concrete assignment is the witness
        c.flush();
        let case = c.case.clone();
        match c.full_assign() {
            Some(m) => {
                if c.report.room(&case) {
                    c.report.candidates.push(json!({"case": case, "label": label, "kind": "boolean", "assign": m}))
                }
            }
            None => c.report.inconclusive.push(format!("{case}: {label}: fails on a path without a concrete witness")),
        }
    }
}

pub fn observe_str(s: &str) {
    ctx().obs.push(s.to_string());
}

pub fn fnv(s: &[String]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in s {
        for b in x.bytes().chain([0u8]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    format!("{}:{h:016x}", s.len())
}

pub struct CaseOpts {
    pub generic: bool,
    pub allow_as_int: bool,
    /// a panic of the code under test is a violation (otherwise it ends the path)
    pub panic_is_violation: bool,
    pub max_paths: usize,
    /// drop all terms after the case
    pub fresh: bool,
}
impl Default for CaseOpts {
    fn default() -> Self {
        CaseOpts { generic: false, allow_as_int: false, panic_is_violation: true, max_paths: 4000, fresh: true }
    }
}

pub static QUIET: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{msg} @ {loc}");
        }
    }));
}

/// seconds for the whole run (SX_SECS); a fifth of them once something is refuted
fn out_of_time(c: &Ctx) -> bool {
    use std::sync::OnceLock;
    static T: OnceLock<(std::time::Instant, f64)> = OnceLock::new();
    let t = T.get_or_init(|| (std::time::Instant::now(), std::env::var("SX_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9)));
    let limit = if c.report.candidates.is_empty() { t.1 } else { t.1 / 5.0 };
    t.0.elapsed().as_secs_f64() > limit
}
pub fn explore(name: &str, o: CaseOpts, f: &mut dyn FnMut()) {
    install_hook();
    let t0 = std::time::Instant::now();
    {
        let mut c = ctx();
        if out_of_time(&c) {
            c.report.inconclusive.push(format!("{name}: not explored within the time limit"));
            return;
        }
        if o.fresh {
            let seed = c.seed;
            c.gl = FieldCtx::new(seed);
            c.bn = FieldCtx::new(seed);
            c.bls = FieldCtx::new(seed);
        }
        c.case = name.to_string();
        c.prefix.clear();
        c.generic = o.generic;
        c.allow_as_int = o.allow_as_int;
        c.max_paths = o.max_paths;
        c.report.case_obs = 0;
    }
    let mut paths = 0u64;
    let mut completed = 0u64;
    let mut obs_hash: Option<String> = None;
    let mut panics: Vec<String> = vec![];
    let ob0 = ctx().report.obligations;
    let q0 = ctx().smt.queries;
    loop {
        {
            let mut c = ctx();
            c.trail.clear();
            c.concolic = true;
            c.obs.clear();
            c.gl.reset_path();
            c.bn.reset_path();
            c.bls.reset_path();
            c.report.case_obs = 0;
        }
        paths += 1;
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        let mut c = ctx();
        match r {
            Ok(()) => {
                c.flush();
                completed += 1;
                if c.concolic && obs_hash.is_none() {
                    obs_hash = Some(fnv(&c.obs));
                }
            }
            Err(e) => {
                if e.is::<Infeasible>() {
                } else if let Some(x) = e.downcast_ref::<Escape>() {
                    c.flush();
                    let m = format!("{name}: engine limit: {}", x.0);
                    if !c.report.inconclusive.contains(&m) {
                        c.report.inconclusive.push(m);
                    }
                } else {
                    c.flush();
                    let msg = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
                    if o.panic_is_violation && c.report.room(name) {
                        match c.full_assign() {
                            Some(m) => c.report.candidates.push(json!({"case": name, "label": "panic", "kind": "panic", "message": msg, "assign": m})),
                            None => c.report.inconclusive.push(format!("{name}: panic on a path without a concrete witness: {msg}")),
                        }
                    }
                    if panics.len() < 3 {
                        panics.push(msg);
                    }
                }
            }
        }
        // next path
        let mut next = None;
        while let Some((taken, open)) = c.trail.pop() {
            if open {
                let mut p: Vec<(bool, bool)> = c.trail.clone();
                p.push((!taken, false));
                next = Some(p);
                break;
            }
        }
        match next {
            None => break,
            Some(p) => {
                let mp = c.max_paths;
                if paths >= 40 && c.report.candidates.iter().any(|x| x["case"] == name) {
                    break; // already refuted
                }
                if out_of_time(&c) {
                    c.report.inconclusive.push(format!("{name}: stopped by the time limit after {paths} paths"));
                    break;
                }
                if paths as usize >= mp {
                    c.report.inconclusive.push(format!("{name}: path limit {mp} reached"));
                    break;
                }
                c.prefix = p;
                drop(c);
            }
        }
    }
    let mut c = ctx();
    c.report.paths += paths;
    if completed == 0 && panics.is_empty() {
        c.report.inconclusive.push(format!("{name}: no path reached the end of the harness"));
    }
    let (obl, q) = (c.report.obligations - ob0, c.smt.queries - q0);
    if obl == 0 && o.panic_is_violation && panics.is_empty() {
        let m = format!("{name}: no obligation was reached");
        c.report.inconclusive.push(m);
    }
    let c = &mut *c;
    let opaque = c.gl.st.opaque_used || c.bn.st.opaque_used || c.bls.st.opaque_used;
    c.report.cases.push(json!({"case": name, "paths": paths, "completed": completed, "obligations": obl, "queries": q,
        "obs": obs_hash, "panics": panics, "opaque_powers": opaque,
        "terms": c.gl.st.lins.len() + c.bn.st.lins.len() + c.bls.st.lins.len(), "secs": t0.elapsed().as_secs_f64()}));
}

pub fn report_json() -> Value {
    let mut c = ctx();
    let c = &mut *c;
    json!({
        "cases": c.report.cases, "candidates": c.report.candidates, "inconclusive": c.report.inconclusive,
        "obligations": c.report.obligations, "paths": c.report.paths, "forks": c.report.forks, "constants": c.report.constants,
        "generic_assumptions": c.report.generic_assumptions,
        "solver": {"name": c.smt.name, "queries": c.smt.queries, "unsat": c.smt.unsat, "sat": c.smt.sat, "unknown": c.smt.unknown,
                   "secs": c.smt.secs, "bytes": c.smt.bytes},
    })
}
