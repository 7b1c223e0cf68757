#![allow(dead_code, unused_imports, unexpected_cfgs, clippy::all)]
pub use ff;
pub use rand;
#[path = "@REPO@/fields/src/field_gl.rs"]
pub mod field_gl;
#[path = "@REPO@/fields/src/packed.rs"]
pub mod packed;
#[path = "@REPO@/fields/src/arch/x86_64/@VARIANT@_field_gl.rs"]
pub mod lanes;
use field_gl::FrRepr;
use lanes::@TYPE@ as W;
use packed::PackedField;
pub const N: usize = @LANES@;
pub type A = [u64; N];
fn w(a: &A) -> W { *W::from_slice(unsafe { &*(a as *const A as *const [FrRepr; N]) }) }
fn put(o: &mut A, x: W) { for (i, v) in x.as_slice().iter().enumerate() { o[i] = v.0[0]; } }

macro_rules! wrap {
    ($($name:ident |$a:ident, $b:ident, $o:ident, $q:ident| $body:block)*) => {
        $(#[no_mangle] pub fn $name($a: &A, $b: &A, $o: &mut A, $q: &mut A) { $body })*
        pub fn call(name: &str, a: &A, b: &A, o: &mut A, q: &mut A) {
            match name { $(stringify!($name) => $name(a, b, o, q),)* _ => panic!("no such wrapper") }
        }
    };
}

wrap! {
    v_add |a, b, o, _q| { put(o, w(a) + w(b)) }
    v_add_assign |a, b, o, _q| { let mut x = w(a); x += w(b); put(o, x) }
    v_add_scalar |a, b, o, _q| { put(o, w(a) + FrRepr([b[0]])) }
    v_scalar_add |a, b, o, _q| { put(o, FrRepr([b[0]]) + w(a)) }
    v_add_assign_scalar |a, b, o, _q| { let mut x = w(a); x += FrRepr([b[0]]); put(o, x) }
    v_sub |a, b, o, _q| { put(o, w(a) - w(b)) }
    v_sub_assign |a, b, o, _q| { let mut x = w(a); x -= w(b); put(o, x) }
    v_sub_scalar |a, b, o, _q| { put(o, w(a) - FrRepr([b[0]])) }
    v_scalar_sub |a, b, o, _q| { put(o, FrRepr([b[0]]) - w(a)) }
    v_sub_assign_scalar |a, b, o, _q| { let mut x = w(a); x -= FrRepr([b[0]]); put(o, x) }
    v_neg |a, _b, o, _q| { put(o, -w(a)) }
    v_mul |a, b, o, _q| { put(o, w(a) * w(b)) }
    v_mul_assign |a, b, o, _q| { let mut x = w(a); x *= w(b); put(o, x) }
    v_mul_scalar |a, b, o, _q| { put(o, w(a) * FrRepr([b[0]])) }
    v_scalar_mul |a, b, o, _q| { put(o, FrRepr([b[0]]) * w(a)) }
    v_mul_assign_scalar |a, b, o, _q| { let mut x = w(a); x *= FrRepr([b[0]]); put(o, x) }
    v_square |a, _b, o, _q| { put(o, w(a).square()) }
    v_reduce |a, b, o, _q| { put(o, W::reduce(w(a).get(), w(b).get())) }
    v_from |a, _b, o, _q| { put(o, W::from(FrRepr([a[0]]))) }
    v_zeros |_a, _b, o, _q| { put(o, W::ZEROS) }
    v_ones |_a, _b, o, _q| { put(o, W::ONES) }
    v_default |_a, _b, o, _q| { put(o, W::default()) }
    v_interleave1 |a, b, o, q| { let (x, y) = w(a).interleave(w(b), 1); put(o, x); put(q, y) }
    v_interleave2 |a, b, o, q| { let (x, y) = w(a).interleave(w(b), 2); put(o, x); put(q, y) }
    v_interleave4 |a, b, o, q| { let (x, y) = w(a).interleave(w(b), 4); put(o, x); put(q, y) }
    v_interleave_all |a, b, o, q| { let (x, y) = w(a).interleave(w(b), N); put(o, x); put(q, y) }
    v_roundtrip |a, _b, o, _q| { put(o, W::new(w(a).get())) }
    v_pack_slice |a, b, o, q| {
        let v: [u64; 2 * N] = core::array::from_fn(|i| if i < N { a[i] } else { b[i - N] });
        let s = W::pack_slice(unsafe { &*(&v as *const _ as *const [FrRepr; 2 * N]) });
        put(o, s[0]);
        put(q, s[1])
    }
}
