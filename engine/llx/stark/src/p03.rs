use crate::inp::*;
use crate::f3g::F3G;
use crate::f5g::F5G;
use crate::traits::FieldExtension;
use fields::field_gl::Fr;

fn ints<const N: usize>(c: &[Fr; N]) -> [u64; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = c[i].as_int();
        i += 1;
    }
    r
}
fn lex<const N: usize>(a: &[u64; N], b: &[u64; N]) -> std::cmp::Ordering {
    let mut i = 0;
    while i < N {
        if a[i] != b[i] {
            return if a[i] < b[i] { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };
        }
        i += 1;
    }
    std::cmp::Ordering::Equal
}
fn order<F: FieldExtension>(a: &F, b: &F, o: std::cmp::Ordering) {
    use std::cmp::Ordering::*;
    check(a._eq(b) == (o == Equal), "equality predicate");
    check(a.gt(b) == (o == Greater), "greater");
    check(a.lt(b) == (o == Less), "less");
    check(a.geq(b) == (o != Less), "greater or equal");
    check(a.leq(b) == (o != Greater), "less or equal");
    check((*a == *b) == (o == Equal), "==");
    check((*a != *b) == (o != Equal), "!=");
}
fn cubic() -> F3G {
    F3G::new(fe(), fe(), fe())
}
fn quintic() -> F5G {
    F5G::new(fe(), fe(), fe(), fe(), fe())
}
pub fn p03_cubic_full() {
    let (a, b) = (cubic(), cubic());
    order(&a, &b, lex(&ints(&a.cube), &ints(&b.cube)));
}
pub fn p03_cubic_base() {
    let (x, y) = (fe(), fe());
    order(&F3G::from(x), &F3G::from(y), x.as_int().cmp(&y.as_int()));
}
pub fn p03_cubic_mixed() {
    let (x, b) = (fe(), cubic());
    let a = F3G::from(x);
    let same = x == b.cube[0] && b.cube[1] == Fr::ZERO && b.cube[2] == Fr::ZERO;
    check(a._eq(&b) == same, "equality predicate, embedded left");
    check(b._eq(&a) == same, "equality predicate, embedded right");
}
pub fn p03_quintic_full() {
    let (a, b) = (quintic(), quintic());
    order(&a, &b, lex(&ints(&a.cube), &ints(&b.cube)));
}
pub fn p03_quintic_base() {
    let (x, y) = (fe(), fe());
    order(&F5G::from(x), &F5G::from(y), x.as_int().cmp(&y.as_int()));
}
pub fn p03_quintic_mixed() {
    let (x, b) = (fe(), quintic());
    let a = F5G::from(x);
    let same = x == b.cube[0] && b.cube[1] == Fr::ZERO && b.cube[2] == Fr::ZERO && b.cube[3] == Fr::ZERO && b.cube[4] == Fr::ZERO;
    check(a._eq(&b) == same, "equality predicate, embedded left");
    check(b._eq(&a) == same, "equality predicate, embedded right");
}
/// elements that agree in all but one arbitrary coefficient
pub fn p03_near() {
    let a = quintic();
    let mut b = a;
    let k = (u64_() % 5) as usize;
    b.cube[k] = fe();
    order(&a, &b, lex(&ints(&a.cube), &ints(&b.cube)));
}
