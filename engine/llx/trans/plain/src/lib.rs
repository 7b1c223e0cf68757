//! derive(PrimeField) for symbolic execution: the type of ff_ce for the integers of an element (representation,
//! modulus, bit counts), and the field itself with the Montgomery factor -1: the words kept for a value v are p - v
//! (0 for 0). Conversions and additions are exact; products are exact when one factor is below 2^16 and otherwise
//! give up ("engine limit"). What the real derive does with the same calls is ff_ce's, not this repository's.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};
fn attr(s: &str, name: &str) -> String {
    let i = s.find(name).unwrap_or_else(|| panic!("no attribute {name}"));
    let t = &s[i..];
    let a = t.find('"').unwrap();
    let b = t[a + 1..].find('"').unwrap();
    t[a + 1..a + 1 + b].to_string()
}
#[proc_macro_derive(PrimeField, attributes(PrimeFieldModulus, PrimeFieldGenerator, PrimeFieldReprEndianness))]
pub fn derive(t: TokenStream) -> TokenStream {
    let s = t.to_string();
    let mut name = None;
    let mut next = false;
    for x in t {
        if let TokenTree::Ident(i) = &x {
            let i = i.to_string();
            if next {
                name = Some(i.clone());
                next = false;
            }
            next = i == "struct";
        }
    }
    let name = name.unwrap();
    let rest = &s[s.find(&format!("struct {name}")).unwrap()..];
    let inner = &rest[rest.find('(').unwrap() + 1..rest.find(')').unwrap()];
    let repr = inner.trim().trim_start_matches("pub").trim().to_string();
    include_str!("model.rs")
        .replace("MOD_STR", &format!("{:?}", attr(&s, "PrimeFieldModulus")))
        .replace("GEN_STR", &format!("{:?}", attr(&s, "PrimeFieldGenerator")))
        .replace("NAME", &name)
        .replace("REPR", &repr)
        .parse()
        .unwrap()
}
