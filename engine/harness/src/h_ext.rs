//! P02: extension field arithmetic against schoolbook multiplication modulo the defining polynomial.
use crate::sx::*;
use fields::Field;
use starky::polutils::{batch_inverse, eval_pol, pol_mul_axi};
use starky::traits::FieldExtension;
use std::ops::*;

/// one extension field: degree, x^D = r(x) as (power, coefficient) list
trait Ext: FieldExtension + Val {
    const D: usize;
    const RED: &'static [(usize, u64)];
    fn full(v: &[GL]) -> Self {
        Self::from_vec(v.to_vec())
    }
    /// coefficients from the stored value, dimension tag included
    fn coefs(&self) -> Vec<GL>;
}
impl Ext for F3G {
    const D: usize = 3;
    const RED: &'static [(usize, u64)] = &[(0, 1), (1, 1)];
    fn coefs(&self) -> Vec<GL> {
        c3(self).to_vec()
    }
}
impl Ext for F5G {
    const D: usize = 5;
    const RED: &'static [(usize, u64)] = &[(0, 3)];
    fn coefs(&self) -> Vec<GL> {
        c5(self).to_vec()
    }
}

fn s_add(a: &[GL], b: &[GL]) -> Vec<GL> {
    a.iter().zip(b).map(|(x, y)| *x + *y).collect()
}
fn s_sub(a: &[GL], b: &[GL]) -> Vec<GL> {
    a.iter().zip(b).map(|(x, y)| *x - *y).collect()
}
pub fn s_mul(d: usize, red: &[(usize, u64)], a: &[GL], b: &[GL]) -> Vec<GL> {
    let mut t = vec![zero(); 2 * d - 1];
    for i in 0..d {
        for j in 0..d {
            t[i + j] = t[i + j] + a[i] * b[j];
        }
    }
    for k in (d..2 * d - 1).rev() {
        let x = t[k];
        for (p, cf) in red {
            t[k - d + p] = t[k - d + p] + x * c(*cf);
        }
    }
    t.truncate(d);
    t
}
fn mulspec<F: Ext>(a: &[GL], b: &[GL]) -> Vec<GL> {
    s_mul(F::D, F::RED, a, b)
}
fn det(m: &[Vec<GL>]) -> GL {
    let n = m.len();
    if n == 1 {
        return m[0][0];
    }
    let mut r = zero();
    for i in 0..n {
        let minor: Vec<Vec<GL>> =
            (0..n).filter(|k| *k != i).map(|k| m[k][1..].to_vec()).collect();
        let t = m[i][0] * det(&minor);
        r = if i % 2 == 0 { r + t } else { r - t };
    }
    r
}
/// norm: determinant of multiplication by a; zero only for a = 0, the polynomial being irreducible
fn norm<F: Ext>(a: &[GL]) -> GL {
    let mut cols = vec![];
    for j in 0..F::D {
        let mut e = vec![zero(); F::D];
        e[j] = one();
        cols.push(mulspec::<F>(a, &e));
    }
    det(&cols)
}

/// operand: coefficients and the code's value. kind 0: embedded base element; 1: full; 2: full with zero upper part
fn operand<F: Ext>(name: &str, kind: usize) -> (Vec<GL>, F) {
    match kind {
        0 => {
            let x = gl(&format!("{name}.0"));
            let mut v = vec![x];
            v.resize(F::D, zero());
            (v, F::from(x))
        }
        1 => {
            let v: Vec<GL> = (0..F::D).map(|i| gl(&format!("{name}.{i}"))).collect();
            (v.clone(), F::full(&v))
        }
        _ => {
            let mut v = vec![gl(&format!("{name}.0"))];
            v.resize(F::D, zero());
            (v.clone(), F::full(&v))
        }
    }
}

fn is<F: Ext>(got: F, want: &[GL], label: &str) {
    eq(&got.coefs(), &want.to_vec(), label);
}

fn ring<F: Ext>(h: &mut H, f: &str) {
    for ka in 0..3 {
        for kb in 0..3 {
            h.case(&format!("{f}.ring.{ka}{kb}"), || {
                let (a, x) = operand::<F>("a", ka);
                let (b, y) = operand::<F>("b", kb);
                let (s, d, m) = (s_add(&a, &b), s_sub(&a, &b), mulspec::<F>(&a, &b));
                is(x + y, &s, "add");
                is(x - y, &d, "sub");
                is(x * y, &m, "mul");
                is(Add::add(x, y), &s, "Add::add");
                let mut t = x;
                t += y;
                is(t, &s, "+=");
                let mut t = x;
                t -= y;
                is(t, &d, "-=");
                let mut t = x;
                t *= y;
                is(t, &m, "*=");
                let mut t = x;
                Field::add_assign(&mut t, &y);
                is(t, &s, "Field::add_assign");
                let mut t = x;
                Field::sub_assign(&mut t, &y);
                is(t, &d, "Field::sub_assign");
                let mut t = x;
                Field::mul_assign(&mut t, &y);
                is(t, &m, "Field::mul_assign");
            });
        }
        h.case(&format!("{f}.unary.{ka}"), || {
            let (a, x) = operand::<F>("a", ka);
            let zeros = vec![zero(); F::D];
            let n = s_sub(&zeros, &a);
            is(-x, &n, "neg");
            let mut t = x;
            Field::negate(&mut t);
            is(t, &n, "Field::negate");
            let mut t = x;
            Field::double(&mut t);
            is(t, &s_add(&a, &a), "double");
            let mut t = x;
            Field::square(&mut t);
            is(t, &mulspec::<F>(&a, &a), "square");
            let k = int("k");
            let kf = gl("k");
            is(x.mul_scalar(k as usize), &a.iter().map(|v| *v * kf).collect::<Vec<_>>(), "mul_scalar");
            is(F::from(k), &std::iter::once(kf).chain(vec![zero(); F::D - 1]).collect::<Vec<_>>(), "from u64");
            is(F::from(k as usize), &std::iter::once(kf).chain(vec![zero(); F::D - 1]).collect::<Vec<_>>(), "from usize");
            truth(x.dim() == if ka == 0 { 1 } else { F::D }, "dim");
        });
        // an operation's result is usable as an operand again, whatever its dimension
        h.case(&format!("{f}.chain.{ka}"), || {
            let (a, x) = operand::<F>("a", ka);
            let (b, y) = operand::<F>("b", 0);
            let (d, z) = operand::<F>("d", 1);
            is((x + y) * z - x, &s_sub(&mulspec::<F>(&s_add(&a, &b), &d), &a), "(a+b)d-a");
            is((x - y) * (z + y), &mulspec::<F>(&s_sub(&a, &b), &s_add(&d, &b)), "(a-b)(d+b)");
        });
    }
    h.case(&format!("{f}.constants"), || {
        let z = vec![zero(); F::D];
        let mut o = z.clone();
        o[0] = one();
        is(F::ZERO, &z, "ZERO");
        is(F::ZEROS, &z, "ZEROS");
        is(F::ONE, &o, "ONE");
        is(F::ONES, &o, "ONES");
        is(<F as Field>::zero(), &z, "zero()");
        is(<F as Field>::one(), &o, "one()");
    });
}

fn exps<F: Ext>(h: &mut H, f: &str, top: usize) {
    for e in 0..=top {
        h.case(&format!("{f}.exp.{e}"), || {
            let (a, x) = operand::<F>("a", 1);
            let mut w = vec![zero(); F::D];
            w[0] = one();
            for _ in 0..e {
                w = mulspec::<F>(&w, &a);
            }
            is(x.exp(e), &w, "exp");
        });
    }
    // long exponents on elements with zero upper part: every bit pattern position of the loop
    for e in [17usize, 100, 255, 256, 1023, 65537, 1 << 20, (1 << 30) - 1, 1 << 30, 0x5555_5555, 0x2aaa_aaab] {
        for kind in [0, 2] {
            h.case(&format!("{f}.exp.{e}.{kind}"), || {
                let (a, x) = operand::<F>("a", kind);
                let mut r = one();
                for i in (0..32).rev() {
                    r = r * r;
                    if (e >> i) & 1 == 1 {
                        r = r * a[0];
                    }
                }
                let mut w = vec![zero(); F::D];
                w[0] = r;
                is(x.exp(e), &w, "exp");
            });
        }
    }
}

fn inverses<F: Ext>(h: &mut H, f: &str) {
    let mut unit = |k: usize| {
        let mut o = vec![zero(); F::D];
        o[k] = one();
        o
    };
    let o = unit(0);
    for ka in 0..3 {
        h.case(&format!("{f}.inv.{ka}"), || {
            let (a, x) = operand::<F>("a", ka);
            assume_ne(if ka == 1 { norm::<F>(&a) } else { a[0] }, zero());
            is2::<F>(&a, x.inv(), &o, "a * inv(a)");
            match Field::inverse(&x) {
                Some(v) => is2::<F>(&a, v, &o, "a * inverse(a)"),
                None => truth(false, "inverse of a non-zero element is absent"),
            }
        });
        for kb in 0..3 {
            h.case(&format!("{f}.div.{ka}{kb}"), || {
                let (a, x) = operand::<F>("a", ka);
                let (b, y) = operand::<F>("b", kb);
                assume_ne(if kb == 1 { norm::<F>(&b) } else { b[0] }, zero());
                is2::<F>(&b, x / y, &a, "b * (a / b)");
                let mut t = x;
                t /= y;
                is2::<F>(&b, t, &a, "/=");
            });
        }
    }
    // sparse shapes: each non-empty set of non-zero coefficients
    for mask in 1..(1usize << F::D) {
        if F::D == 5 && mask.count_ones() > 3 {
            continue;
        }
        h.case(&format!("{f}.inv.sparse.{mask}"), || {
            let a: Vec<GL> =
                (0..F::D).map(|i| if mask >> i & 1 == 1 { gl(&format!("a.{i}")) } else { zero() }).collect();
            assume_ne(norm::<F>(&a), zero());
            is2::<F>(&a, F::full(&a).inv(), &o, "a * inv(a)");
        });
    }
}
fn is2<F: Ext>(a: &[GL], got: F, want: &[GL], label: &str) {
    eq(&mulspec::<F>(a, &got.coefs()), &want.to_vec(), label);
}

fn batches<F: Ext>(h: &mut H, f: &str) {
    let mut o = vec![zero(); F::D];
    o[0] = one();
    for n in 0..=8usize {
        h.case(&format!("{f}.batch.base.{n}"), || {
            let v: Vec<GL> = (0..n).map(|i| gl(&format!("a{i}"))).collect();
            for x in &v {
                assume_ne(*x, zero());
            }
            let w: Vec<F> = v.iter().map(|x| F::from(*x)).collect();
            let r = batch_inverse(&w);
            truth(r.len() == n, "length");
            for (i, x) in r.iter().enumerate() {
                let mut a = vec![zero(); F::D];
                a[0] = v[i];
                is2::<F>(&a, *x, &o, &format!("element {i}"));
            }
        });
    }
    // mixed dimensions: one full element at each position among base elements
    for n in 1..=4usize {
        for at in 0..n {
            h.case(&format!("{f}.batch.mixed.{n}.{at}"), || {
                let ops: Vec<(Vec<GL>, F)> =
                    (0..n).map(|i| operand::<F>(&format!("a{i}"), if i == at { 1 } else { 0 })).collect();
                let mut prod = one();
                for (i, (a, _)) in ops.iter().enumerate() {
                    if i != at {
                        assume_ne(a[0], zero());
                        prod = prod * a[0];
                    }
                }
                let nm = norm::<F>(&ops[at].0);
                assume_ne(nm, zero());
                let scaled: Vec<GL> = ops[at].0.iter().map(|x| *x * prod).collect();
                assume_ne(norm::<F>(&scaled), zero());
                let r = batch_inverse(&ops.iter().map(|x| x.1).collect::<Vec<_>>());
                truth(r.len() == n, "length");
                for (i, x) in r.iter().enumerate() {
                    is2::<F>(&ops[i].0, *x, &o, &format!("element {i}"));
                }
            });
        }
    }
}

fn polys<F: Ext>(h: &mut H, f: &str) {
    for n in 0..=5usize {
        h.case(&format!("{f}.polutils.{n}"), || {
            let ps: Vec<(Vec<GL>, F)> = (0..n).map(|i| operand::<F>(&format!("p{i}"), (i + 1) % 2)).collect();
            let (xa, x) = operand::<F>("x", if n % 2 == 0 { 0 } else { 2 });
            let (ya, y) = operand::<F>("y", 0);
            let pv: Vec<F> = ps.iter().map(|p| p.1).collect();
            let mut w = vec![zero(); F::D];
            let mut pw = vec![zero(); F::D];
            pw[0] = one();
            for p in &ps {
                w = s_add(&w, &mulspec::<F>(&p.0, &pw));
                pw = mulspec::<F>(&pw, &xa);
            }
            is(eval_pol(&pv, &x), &w, "eval_pol");
            let mut q = pv.clone();
            pol_mul_axi(&mut q, y, &x);
            let mut r = ya.clone();
            for i in 0..n {
                is(q[i], &mulspec::<F>(&ps[i].0, &r), "pol_mul_axi");
                r = mulspec::<F>(&r, &xa);
            }
        });
    }
    for n in 1..=3usize {
        h.case(&format!("{f}.eval_pol.full.{n}"), || {
            let ps: Vec<(Vec<GL>, F)> = (0..n).map(|i| operand::<F>(&format!("p{i}"), 1)).collect();
            let (xa, x) = operand::<F>("x", 1);
            let mut w = vec![zero(); F::D];
            let mut pw = vec![zero(); F::D];
            pw[0] = one();
            for p in &ps {
                w = s_add(&w, &mulspec::<F>(&p.0, &pw));
                pw = mulspec::<F>(&pw, &xa);
            }
            is(eval_pol(&ps.iter().map(|p| p.1).collect::<Vec<_>>(), &x), &w, "eval_pol");
        });
    }
}

pub fn p02(h: &mut H) {
    let t = h.thorough;
    ring::<F3G>(h, "F3G");
    ring::<F5G>(h, "F5G");
    exps::<F3G>(h, "F3G", if t { 40 } else { 16 });
    exps::<F5G>(h, "F5G", if t { 10 } else { 6 });
    inverses::<F3G>(h, "F3G");
    inverses::<F5G>(h, "F5G");
    batches::<F3G>(h, "F3G");
    batches::<F5G>(h, "F5G");
    polys::<F3G>(h, "F3G");
    polys::<F5G>(h, "F5G");
}
