//! Harness interface, the same in both builds.
//!   sym : variables are symbolic, obligations go to the solver
//!   real: variables take the values of a counterexample or of the evaluation point
#![allow(dead_code)]
use ff::{Field, PrimeField};
pub use fields::field_gl::Fr as GL;
pub use starky::f3g::F3G;
pub use starky::f5g::F5G;
pub use starky::field_bls12381::Fr as BLS;
pub use starky::field_bn128::Fr as BN;
use starky::traits::FieldExtension;
use std::sync::Mutex;
#[allow(unused_imports)]
use symcore::coef::{Coef, Gl};

pub struct Opts {
    pub generic: bool,
    pub as_int: bool,
    pub panic_is_violation: bool,
    pub max_paths: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { generic: false, as_int: false, panic_is_violation: true, max_paths: 4000 }
    }
}

pub struct H {
    pub thorough: bool,
    pub filter: Option<String>,
    /// this process takes the cases with number = shard.0 modulo shard.1
    pub shard: (usize, usize),
    pub count: usize,
    #[cfg(feature = "real")]
    pub reqs: Vec<serde_json::Value>,
    #[cfg(feature = "real")]
    pub results: Vec<serde_json::Value>,
}

impl H {
    pub fn case<F: FnMut()>(&mut self, name: &str, f: F) {
        self.case_with(name, Opts::default(), f)
    }

    #[cfg(feature = "sym")]
    pub fn case_with<F: FnMut()>(&mut self, name: &str, o: Opts, mut f: F) {
        if let Some(x) = &self.filter {
            if !name.contains(x.as_str()) {
                return;
            }
        }
        self.count += 1;
        if self.count % self.shard.1 != self.shard.0 {
            return;
        }
        if let Some(p) = std::env::args().nth(2) {
            let _ = std::fs::write(p + ".cur", name);
        }
        symcore::ctx::explore(
            name,
            symcore::ctx::CaseOpts {
                generic: o.generic,
                allow_as_int: o.as_int,
                panic_is_violation: o.panic_is_violation,
                max_paths: o.max_paths,
                fresh: true,
            },
            &mut f,
        );
    }

    #[cfg(feature = "real")]
    pub fn case_with<F: FnMut()>(&mut self, name: &str, _o: Opts, mut f: F) {
        symcore::ctx::install_hook();
        for r in self.reqs.clone() {
            if r["case"] != name {
                continue;
            }
            {
                let mut n = nat();
                *n = Native::default();
                n.seed = r["seed"].as_u64().unwrap_or(1);
                if let Some(m) = r["assign"].as_object() {
                    n.assign = m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect();
                }
            }
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut f));
            let n = nat();
            let panic = match res {
                Ok(()) => serde_json::Value::Null,
                Err(_) => symcore::ctx::LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default().into(),
            };
            self.results.push(serde_json::json!({
                "case": name, "failures": n.failures, "panic": panic, "obs": symcore::ctx::fnv(&n.obs),
                "first_obs": n.obs.iter().take(if std::env::var("SX_OBS").is_ok() { 2000 } else { 0 }).collect::<Vec<_>>(),
                "details": n.details }));
        }
    }
}

#[derive(Default)]
pub struct Native {
    pub seed: u64,
    pub assign: std::collections::HashMap<String, String>,
    pub obs: Vec<String>,
    pub failures: Vec<String>,
    pub details: Vec<String>,
    pub nobs: u64,
}
pub fn nat() -> std::sync::MutexGuard<'static, Native> {
    static N: std::sync::OnceLock<Mutex<Native>> = std::sync::OnceLock::new();
    N.get_or_init(|| Mutex::new(Native::default())).lock().unwrap_or_else(|e| e.into_inner())
}

#[cfg(feature = "real")]
fn native_value<C: Coef>(name: &str) -> C {
    let n = nat();
    match n.assign.get(&format!("{}:{}", C::NAME, name)) {
        Some(s) => C::from_dec(s),
        None => symcore::store::default_value::<C>(name, n.seed),
    }
}

/// a symbolic base-field element
pub fn gl(name: &str) -> GL {
    #[cfg(feature = "sym")]
    return GL::from_lin(symcore::ctx::gl::var(name));
    #[cfg(feature = "real")]
    {
        let v: Gl = native_value(name);
        GL::from(v.0)
    }
}
pub fn gls(name: &str, n: usize) -> Vec<GL> {
    (0..n).map(|i| gl(&format!("{name}{i}"))).collect()
}
pub fn bn(name: &str) -> BN {
    #[cfg(feature = "sym")]
    return BN::from_lin(symcore::ctx::bn::var(name));
    #[cfg(feature = "real")]
    {
        let v: symcore::coef::bn::Fr = native_value(name);
        BN::from_repr(starky::field_bn128::FrRepr(v.limbs())).unwrap()
    }
}
pub fn bls(name: &str) -> BLS {
    #[cfg(feature = "sym")]
    return BLS::from_lin(symcore::ctx::bls::var(name));
    #[cfg(feature = "real")]
    {
        let v: symcore::coef::bls::Fr = native_value(name);
        BLS::from_repr(starky::field_bls12381::FrRepr(v.limbs())).unwrap()
    }
}
/// a symbolic integer below p, as a machine word
pub fn int(name: &str) -> u64 {
    #[cfg(feature = "sym")]
    return fields::field_gl::int_word(symcore::ctx::gl::var(name));
    #[cfg(feature = "real")]
    {
        let v: Gl = native_value(name);
        v.0
    }
}
/// symbolic cubic element, full dimension
pub fn f3(name: &str) -> F3G {
    F3G::new(gl(&format!("{name}.0")), gl(&format!("{name}.1")), gl(&format!("{name}.2")))
}
/// embedded base-field element
pub fn f3b(name: &str) -> F3G {
    F3G::from(gl(name))
}
pub fn c(v: u64) -> GL {
    GL::from(v)
}

/// values that can be compared by an obligation
pub trait Val {
    fn prove(&self, o: &Self, label: &str);
}
#[cfg(feature = "real")]
fn native_eq(a: String, b: String, label: &str) {
    let mut n = nat();
    n.nobs += 1;
    if a != b {
        n.failures.push(label.to_string());
        if n.details.len() < 10 {
            n.details.push(format!("{label}: {a} != {b}"));
        }
    }
    if n.nobs <= 20000 {
        n.obs.push(a);
        n.obs.push(b);
    }
}
impl Val for GL {
    #[cfg(feature = "sym")]
    fn prove(&self, o: &Self, label: &str) {
        symcore::ctx::gl::prove_eq(self.lin(), o.lin(), label)
    }
    #[cfg(feature = "real")]
    fn prove(&self, o: &Self, label: &str) {
        native_eq(self.as_int().to_string(), o.as_int().to_string(), label)
    }
}
impl Val for BN {
    #[cfg(feature = "sym")]
    fn prove(&self, o: &Self, label: &str) {
        symcore::ctx::bn::prove_eq(self.lin(), o.lin(), label)
    }
    #[cfg(feature = "real")]
    fn prove(&self, o: &Self, label: &str) {
        native_eq(symcore::coef::limbs_to_dec(self.into_repr().0), symcore::coef::limbs_to_dec(o.into_repr().0), label)
    }
}
impl Val for BLS {
    #[cfg(feature = "sym")]
    fn prove(&self, o: &Self, label: &str) {
        symcore::ctx::bls::prove_eq(self.lin(), o.lin(), label)
    }
    #[cfg(feature = "real")]
    fn prove(&self, o: &Self, label: &str) {
        native_eq(symcore::coef::limbs_to_dec(self.into_repr().0), symcore::coef::limbs_to_dec(o.into_repr().0), label)
    }
}
impl<T: Val> Val for [T] {
    fn prove(&self, o: &Self, label: &str) {
        truth(self.len() == o.len(), &format!("{label}.len"));
        for (i, (a, b)) in self.iter().zip(o.iter()).enumerate() {
            a.prove(b, &format!("{label}[{i}]"));
        }
    }
}
impl<T: Val> Val for Vec<T> {
    fn prove(&self, o: &Self, label: &str) {
        self.as_slice().prove(o.as_slice(), label)
    }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn prove(&self, o: &Self, label: &str) {
        self.as_slice().prove(o.as_slice(), label)
    }
}
/// coefficients of a cubic element, whatever its dimension tag
pub fn c3(x: &F3G) -> [GL; 3] {
    let e = x.as_elements();
    let g = |i: usize| e.get(i).copied().unwrap_or(GL::ZERO);
    [g(0), g(1), g(2)]
}
pub fn c5(x: &F5G) -> [GL; 5] {
    let e = x.as_elements();
    let g = |i: usize| e.get(i).copied().unwrap_or(GL::ZERO);
    [g(0), g(1), g(2), g(3), g(4)]
}
impl Val for F3G {
    fn prove(&self, o: &Self, label: &str) {
        c3(self).prove(&c3(o), label)
    }
}
impl Val for F5G {
    fn prove(&self, o: &Self, label: &str) {
        c5(self).prove(&c5(o), label)
    }
}
impl Val for starky::ElementDigest<4, GL> {
    fn prove(&self, o: &Self, label: &str) {
        use starky::traits::MTNodeType;
        self.as_elements().prove(o.as_elements(), label)
    }
}

pub fn eq<T: Val + ?Sized>(a: &T, b: &T, label: &str) {
    a.prove(b, label)
}

/// boolean obligation on the current path
pub fn truth(b: bool, label: &str) {
    #[cfg(feature = "sym")]
    symcore::ctx::prove_true(b, label);
    #[cfg(feature = "real")]
    {
        let mut n = nat();
        n.obs.push(format!("{b}"));
        if !b {
            n.failures.push(label.to_string());
        }
    }
}

/// restrict the path to a = b (native: a failed assumption aborts the replay)
pub fn assume_eq(a: GL, b: GL) {
    #[cfg(feature = "sym")]
    symcore::ctx::gl::assume_eq(a.lin(), b.lin());
    #[cfg(feature = "real")]
    if a != b {
        std::panic::panic_any("assumption does not hold".to_string());
    }
}
/// restrict the path to a != b
pub fn assume_ne(a: GL, b: GL) {
    #[cfg(feature = "sym")]
    symcore::ctx::gl::assume_ne(a.lin(), b.lin());
    #[cfg(feature = "real")]
    if a == b {
        std::panic::panic_any("assumption does not hold".to_string());
    }
}
pub fn zero() -> GL {
    GL::ZERO
}
pub fn one() -> GL {
    GL::ONE
}
pub fn inv(a: GL) -> GL {
    a.inverse().unwrap()
}
