use crate::any::*;
use crate::fld::*;
use crate::r1cs_file::{from_reader, R1CSFile};
use ff::PrimeField;
use std::io::Cursor;

/// what a file is meant to hold; integers little-endian, coefficients as the file's bytes
struct Plan {
    field: Vec<u8>,
    wires: u32,
    out: u32,
    inp: u32,
    prv: u32,
    labels: u64,
    cons: Vec<[Vec<(u32, Vec<u8>)>; 3]>,
    map: Vec<u64>,
    gates: Option<Vec<(Vec<u8>, Vec<Vec<u8>>)>>,
    uses: Option<Vec<(u32, Vec<u64>)>>,
}
fn elem(p: &[u8]) -> Vec<u8> {
    let b = bytes(p.len());
    assume(below(&b, p));
    b
}
fn label() -> u64 {
    u64_()
}
/// all contents arbitrary
fn plan(field: &[u8], cons: &[[usize; 3]], wires: u32) -> Plan {
    let (out, inp, prv) = (u32_(), u32_(), u32_());
    assume(out <= 4 && inp <= 4 && 1 + out + inp <= wires);
    let cons = cons.iter().map(|c| [lc(field, c[0]), lc(field, c[1]), lc(field, c[2])]).collect();
    let mut map = vec![0u64];
    while map.len() < wires as usize {
        map.push(label());
    }
    Plan { field: field.to_vec(), wires, out, inp, prv, labels: u64_(), cons, map, gates: None, uses: None }
}
fn lc(p: &[u8], n: usize) -> Vec<(u32, Vec<u8>)> {
    (0..n).map(|_| (u32_(), elem(p))).collect()
}
fn section(p: &Plan, t: u32) -> Vec<u8> {
    let mut b = vec![];
    let w = |b: &mut Vec<u8>, v: u32| b.extend_from_slice(&v.to_le_bytes());
    match t {
        1 => {
            w(&mut b, p.field.len() as u32);
            b.extend_from_slice(&p.field);
            for v in [p.wires, p.out, p.inp, p.prv] {
                w(&mut b, v);
            }
            b.extend_from_slice(&p.labels.to_le_bytes());
            w(&mut b, p.cons.len() as u32);
        }
        2 => {
            for c in &p.cons {
                for l in c {
                    w(&mut b, l.len() as u32);
                    for (i, e) in l {
                        w(&mut b, *i);
                        b.extend_from_slice(e);
                    }
                }
            }
        }
        3 => {
            for m in &p.map {
                b.extend_from_slice(&m.to_le_bytes());
            }
        }
        4 => {
            let g = p.gates.as_ref().unwrap();
            w(&mut b, g.len() as u32);
            for (n, ps) in g {
                b.extend_from_slice(n);
                b.push(0);
                w(&mut b, ps.len() as u32);
                for e in ps {
                    b.extend_from_slice(e);
                }
            }
        }
        5 => {
            let u = p.uses.as_ref().unwrap();
            w(&mut b, u.len() as u32);
            for (i, s) in u {
                w(&mut b, *i);
                w(&mut b, s.len() as u32);
                for x in s {
                    b.extend_from_slice(&x.to_le_bytes());
                }
            }
        }
        _ => b.extend_from_slice(&bytes(t as usize)),
    }
    b
}
fn file(p: &Plan, order: &[u32]) -> Vec<u8> {
    let mut b = b"r1cs".to_vec();
    b.extend_from_slice(&1u32.to_le_bytes());
    b.extend_from_slice(&(order.len() as u32).to_le_bytes());
    for t in order {
        let s = section(p, *t);
        b.extend_from_slice(&t.to_le_bytes());
        b.extend_from_slice(&(s.len() as u64).to_le_bytes());
        b.extend_from_slice(&s);
    }
    b
}
fn sorted(l: &[(u32, Vec<u8>)]) -> Vec<(u32, Vec<u8>)> {
    let mut r: Vec<(u32, Vec<u8>)> = vec![];
    for x in l {
        let mut k = r.len();
        while k > 0 && r[k - 1].0 > x.0 {
            k -= 1;
        }
        r.insert(k, x.clone());
    }
    r
}
fn same_lc<E: PrimeField>(g: &[(usize, E)], w: &[(u32, Vec<u8>)]) {
    check(g.len() == w.len(), "terms of a linear combination");
    for ((i, e), (j, b)) in g.iter().zip(sorted(w)) {
        check(*i == j as usize, "wire of a term");
        check(raw(e) == b, "coefficient of a term");
    }
}
fn same<E: PrimeField>(f: &R1CSFile<E>, p: &Plan) {
    let h = &f.header;
    check(f.version == 1, "version");
    check(h.field_size as usize == p.field.len() && h.prime_size == p.field, "field");
    check(h.n_wires == p.wires && h.n_pub_out == p.out && h.n_pub_in == p.inp && h.n_prv_in == p.prv, "wire counts");
    check(h.n_labels == p.labels, "label count");
    check(h.n_constraints as usize == p.cons.len(), "constraint count");
    check(h.use_custom_gates == (p.gates.is_some() && p.uses.is_some()), "custom gate flag");
    check(f.constraints.len() == p.cons.len(), "constraints");
    for (g, w) in f.constraints.iter().zip(&p.cons) {
        same_lc(&g.0, &w[0]);
        same_lc(&g.1, &w[1]);
        same_lc(&g.2, &w[2]);
    }
    check(f.wire_mapping == p.map, "wire map");
    let none = vec![];
    let gs = p.gates.as_ref().unwrap_or(&none);
    check(f.custom_gates.len() == gs.len(), "custom gates");
    for (g, (n, ps)) in f.custom_gates.iter().zip(gs) {
        check(g.template_name.as_bytes() == &n[..], "template name");
        check(g.parameters.len() == ps.len(), "parameters");
        for (x, y) in g.parameters.iter().zip(ps) {
            check(raw(x) == *y, "a parameter");
        }
    }
    let none = vec![];
    let us = p.uses.as_ref().unwrap_or(&none);
    check(f.custom_gates_uses.len() == us.len(), "custom gate uses");
    for (g, (i, s)) in f.custom_gates_uses.iter().zip(us) {
        check(g.id == *i as u64, "gate of a use");
        check(g.signals == *s, "signals of a use");
    }
}
fn parses<E: PrimeField>(b: Vec<u8>, p: &Plan) {
    match from_reader::<_, E>(Cursor::new(b)) {
        Ok(f) => same(&f, p),
        Err(_) => check(false, "a well-formed file is accepted"),
    }
}
const ORDERS: [[u32; 3]; 6] = [[1, 2, 3], [1, 3, 2], [2, 1, 3], [2, 3, 1], [3, 1, 2], [3, 2, 1]];
/// any content, sections in any order
pub fn p21_any_order() {
    let k = choose(6);
    let p = plan(&PG, &[[1, 1, 1]], 3);
    parses::<G>(file(&p, &ORDERS[k]), &p);
}
pub fn p21_terms() {
    let p = plan(&PG, &[[2, 0, 3], [0, 1, 0]], 2);
    parses::<G>(file(&p, &[1, 2, 3]), &p);
}
pub fn p21_bn128() {
    let p = plan(&PB, &[[1, 2, 0]], 5);
    parses::<B>(file(&p, &[3, 2, 1]), &p);
}
pub fn p21_bls() {
    let p = plan(&PL, &[[1, 1, 1]], 1);
    parses::<L>(file(&p, &[1, 2, 3]), &p);
}
pub fn p21_unconstrained() {
    let p = plan(&PG, &[], 1);
    parses::<G>(file(&p, &[1, 2, 3]), &p);
}
/// a section of another kind is skipped
pub fn p21_extra_section() {
    let p = plan(&PG, &[[1, 0, 0]], 2);
    parses::<G>(file(&p, &[9, 1, 2, 7, 3]), &p);
}
fn name(n: usize) -> Vec<u8> {
    let b = bytes(n);
    for x in &b {
        assume(*x != 0 && *x < 0x80);
    }
    b
}
fn custom(g: usize, u: usize) -> Plan {
    let mut p = plan(&PG, &[[1, 0, 1]], 2);
    p.gates = Some((0..g).map(|i| (name(i + 1), (0..2 - i % 3).map(|_| elem(&PG)).collect())).collect());
    p.uses = Some((0..u).map(|i| (u32_(), (0..i % 3).map(|_| u64_()).collect())).collect());
    p
}
pub fn p21_custom_gates() {
    let p = custom(2, 3);
    parses::<G>(file(&p, &[1, 2, 3, 4, 5]), &p);
}
pub fn p21_custom_gates_first() {
    let k = choose(5);
    let mut o = vec![5, 3, 4, 2, 1];
    o.rotate_left(k);
    let p = custom(1, 2);
    parses::<G>(file(&p, &o), &p);
}
pub fn p21_no_custom_gates() {
    let p = custom(0, 0);
    parses::<G>(file(&p, &[1, 4, 5, 2, 3]), &p);
}

/// whatever is returned for a damaged file, the reader returns
fn survives<E: PrimeField>(b: Vec<u8>) -> Option<R1CSFile<E>> {
    let r = from_reader::<_, E>(Cursor::new(b)).ok();
    mark(r.is_some() as u64);
    r
}
/// cut anywhere: an error, because every byte of these files is needed
fn cut(p: Plan, order: &[u32]) {
    let mut b = file(&p, order);
    let n = b.len();
    assume(n <= 256);
    let k = choose(n);
    b.truncate(k);
    check(survives::<G>(b).is_none(), "a truncated file is rejected");
}
pub fn p21_cut() {
    cut(plan(&PG, &[[1, 1, 0]], 2), &[2, 1, 3]);
}
pub fn p21_cut_custom() {
    let mut p = custom(1, 2);
    p.cons = vec![];
    cut(p, &[2, 1, 3, 5, 4]);
}
pub fn p21_cut_uses() {
    let mut p = custom(1, 2);
    p.cons = vec![];
    cut(p, &[4, 1, 2, 3, 5]);
}
/// a file with nothing arbitrary in it
fn fixed(custom: bool) -> Plan {
    let mut p = Plan { field: PG.to_vec(), wires: 2, out: 1, inp: 0, prv: 0, labels: 2, cons: vec![], map: vec![0, 5], gates: None, uses: None };
    if custom {
        p.gates = Some(vec![(b"ABC".to_vec(), vec![vec![7, 0, 0, 0, 0, 0, 0, 0]])]);
        p.uses = Some(vec![(0, vec![1])]);
    } else {
        p.cons.push([vec![(1, vec![3; 8])], vec![], vec![(0, vec![1, 0, 0, 0, 0, 0, 0, 0])]]);
    }
    p
}
/// one 32-bit word of the file arbitrary, counts included; a section's size below 64 or one of the large ones
fn damaged(p: Plan, order: &[u32]) {
    let mut b = file(&p, order);
    let mut sizes = vec![];
    let mut at = 12;
    for t in order {
        sizes.push(at / 4 + 1);
        sizes.push(at / 4 + 2);
        at += 12 + section(&p, *t).len();
    }
    let k = choose(b.len() / 4);
    let mut w = bytes(4);
    if sizes.contains(&k) {
        let large = [1 << 8, 1 << 16, 0x7fffffff, 1 << 31, 0xffffff00, u32::MAX - 1, u32::MAX];
        let v = choose(64 + large.len());
        w = if v < 64 { v as u32 } else { large[v - 64] }.to_le_bytes().to_vec();
    }
    if b[4 * k..4 * k + 4] == *b"ABC\0" {
        assume(w.iter().all(|x| *x < 0x80));
    }
    b[4 * k..4 * k + 4].copy_from_slice(&w);
    if let Some(f) = survives::<G>(b) {
        shape(&f);
    }
}
/// counts agree with what is returned
fn shape<E: PrimeField>(f: &R1CSFile<E>) {
    check(f.constraints.len() == f.header.n_constraints as usize, "as many constraints as the header says");
    check(f.wire_mapping.len() == f.header.n_wires as usize, "as many wires as the header says");
    check(f.wire_mapping.first() == Some(&0), "wire 0 is the constant");
}
pub fn p21_damaged_alloc() {
    damaged(fixed(false), &[1, 2, 3]);
}
pub fn p21_damaged_custom_alloc() {
    damaged(fixed(true), &[4, 1, 2, 3, 5]);
}
/// the contents of one section arbitrary, of any small length
fn contents(t: u32, max: usize) {
    let p = custom(1, 1);
    let mut b = b"r1cs".to_vec();
    b.extend_from_slice(&1u32.to_le_bytes());
    b.extend_from_slice(&5u32.to_le_bytes());
    let mut o = [1u32, 2, 3, 4, 5];
    // the arbitrary one last: reading past it is reading past the end
    o.rotate_left(t as usize);
    for s in o {
        let c = if s == t {
            let n = choose(max + 1);
            let b = bytes(n);
            if t == 4 {
                // names are ASCII
                for x in b.iter().skip(4) {
                    assume(*x < 0x80);
                }
            }
            b
        } else {
            section(&p, s)
        };
        b.extend_from_slice(&s.to_le_bytes());
        b.extend_from_slice(&(c.len() as u64).to_le_bytes());
        b.extend_from_slice(&c);
    }
    if let Some(f) = survives::<G>(b) {
        shape(&f);
    }
}
pub fn p21_header_alloc() {
    contents(1, 41);
}
pub fn p21_constraints_alloc() {
    contents(2, 40);
}
pub fn p21_map_alloc() {
    contents(3, 25);
}
pub fn p21_gates_alloc() {
    contents(4, 10);
}
pub fn p21_gates_deep_alloc() {
    contents(4, 14);
}
pub fn p21_uses_alloc() {
    contents(5, 24);
}
/// any start of a file; sections of any type and size
pub fn p21_short() {
    let n = choose(24 + 1);
    check(survives::<G>(bytes(n)).is_none(), "a file without sections is rejected");
}
pub fn p21_section_table() {
    let mut b = b"r1cs".to_vec();
    b.extend_from_slice(&1u32.to_le_bytes());
    b.extend_from_slice(&bytes(16));
    b.extend_from_slice(&bytes(12));
    check(survives::<G>(b).is_none(), "a file without header is rejected");
}
/// one of the three sections is missing
pub fn p21_missing() {
    let k = choose(3);
    let p = plan(&PG, &[[1, 0, 0]], 2);
    let o: Vec<u32> = [1u32, 2, 3].into_iter().filter(|t| *t != k as u32 + 1).collect();
    check(survives::<G>(file(&p, &o)).is_none(), "a missing section is an error");
}
/// coefficients outside the field
pub fn p21_out_of_field() {
    let mut p = plan(&PG, &[[1, 0, 0]], 2);
    p.cons[0][0][0].1 = bytes(8);
    let ok = below(&p.cons[0][0][0].1, &PG);
    check(survives::<G>(file(&p, &[1, 2, 3])).is_some() == ok, "coefficients are in the field");
}
/// the circuit made of the file
fn circuit<E: PrimeField>(p: Plan) {
    let (r, m) = crate::reader::load_r1cs_from_bin::<_, E>(Cursor::new(file(&p, &[1, 2, 3])));
    check(r.num_inputs == 1 + (p.out + p.inp) as usize, "public wires");
    check(r.num_outputs == p.out as usize, "outputs");
    check(r.num_variables == p.wires as usize, "wires");
    check(r.num_aux + r.num_inputs == r.num_variables && r.num_aux <= r.num_variables, "auxiliary wires");
    check(m.len() == p.map.len(), "wire map");
    for (a, b) in m.iter().zip(&p.map) {
        check(*a as u64 == *b, "wire map");
    }
    check(r.constraints.len() == p.cons.len(), "constraints");
    for (g, w) in r.constraints.iter().zip(&p.cons) {
        same_lc(&g.0, &w[0]);
        same_lc(&g.1, &w[1]);
        same_lc(&g.2, &w[2]);
    }
}
pub fn p21_circuit() {
    circuit::<G>(plan(&PG, &[[1, 0, 2]], 6));
}
/// any wire counts: a circuit only if the counts fit
pub fn p21_circuit_counts_mp() {
    let mut p = plan(&PG, &[], 3);
    p.out = u32_();
    p.inp = u32_();
    let fit = 1 + p.out as u64 + p.inp as u64 <= 3;
    let (r, _) = crate::reader::load_r1cs_from_bin::<_, G>(Cursor::new(file(&p, &[1, 2, 3])));
    check(fit, "public wires are wires");
    check(r.num_aux <= r.num_variables, "auxiliary wires are wires");
}
