use crate::any::*;
use crate::fld::*;
use crate::reader::load_witness_from_array;
use ff::PrimeField;

fn u32at(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]])
}
fn u64at(b: &[u8], i: usize) -> u64 {
    u32at(b, i) as u64 | (u32at(b, i + 4) as u64) << 32
}
/// the .wtns layout read literally: Some(offset and number of the elements) for a well-formed file
fn spec(b: &[u8], p: &[u8; 32]) -> Option<u32> {
    if b.len() < 76 {
        return None;
    }
    let ok = (b[..4] == *b"wtns") & (u32at(b, 4) <= 2) & (u32at(b, 8) == 2) & (u32at(b, 12) == 1) & (u64at(b, 16) == 40) & (u32at(b, 24) == 32) & (b[28..60] == *p);
    let n = u32at(b, 60);
    let ok = ok & (u32at(b, 64) == 2) & (u64at(b, 68) == n as u64 * 32) & ((b.len() as u64 - 76) >= n as u64 * 32);
    if !ok {
        return None;
    }
    let mut ok = true;
    for i in 0..n as usize {
        ok &= below(&b[76 + 32 * i..108 + 32 * i], p);
    }
    if ok { Some(n) } else { None }
}
fn read(b: Vec<u8>) {
    read_as::<B>(b, &PB)
}
fn read_as<E: PrimeField>(b: Vec<u8>, p: &[u8; 32]) {
    let want = spec(&b, p);
    let got = load_witness_from_array::<E>(b.clone());
    match (want, got) {
        (None, Err(_)) => mark(0),
        (None, Ok(_)) => check(false, "a malformed file is rejected"),
        (Some(_), Err(_)) => check(false, "a well-formed file is accepted"),
        (Some(n), Ok(v)) => {
            check(v.len() == n as usize, "as many elements as the file holds");
            for (i, e) in v.iter().enumerate() {
                check(raw(e) == b[76 + 32 * i..108 + 32 * i], "the elements of the file");
            }
            mark(1 + n as u64)
        }
    }
}
/// every file of each length
pub fn p22_read_short() {
    let n = choose(76);
    read(bytes(n));
}
pub fn p22_read_76() {
    read(bytes(76));
}
pub fn p22_read_107() {
    read(bytes(107));
}
pub fn p22_read_140() {
    read(bytes(140));
}
pub fn p22_read_204_deep() {
    read(bytes(204));
}
/// the other curve's field: its own files and nobody else's
pub fn p22_read_bls() {
    read_as::<L>(bytes(108), &PL);
}
/// files of an eight-byte field hold nothing this reader accepts
pub fn p22_read_small_field() {
    let b = bytes(84);
    check(load_witness_from_array::<G>(b).is_err(), "files of another element size are rejected");
}
fn header(n: u32) -> Vec<u8> {
    let mut b = b"wtns".to_vec();
    for w in [2u32, 2, 1, 40, 0, 32] {
        b.extend_from_slice(&w.to_le_bytes());
    }
    b.extend_from_slice(&PB);
    b.extend_from_slice(&n.to_le_bytes());
    b.extend_from_slice(&2u32.to_le_bytes());
    b.extend_from_slice(&(n as u64 * 32).to_le_bytes());
    b
}
/// a file cut at any point, its elements arbitrary
pub fn p22_cut() {
    let mut b = header(2);
    b.extend_from_slice(&bytes(64));
    let k = choose(64 + 1);
    b.truncate(76 + k);
    read(b);
}
/// a header that promises more than the file holds
pub fn p22_promise_alloc() {
    let n = u32_();
    let mut b = header(n);
    b.extend_from_slice(&bytes(32));
    read(b);
}
/// one word of the header arbitrary
pub fn p22_header_word() {
    let mut b = header(1);
    let k = choose(19);
    let w = bytes(4);
    b[4 * k..4 * k + 4].copy_from_slice(&w);
    b.extend_from_slice(&bytes(32));
    read(b);
}
fn written(n: usize) {
    written_as::<B>(n, &PB)
}
fn written_as<E: PrimeField>(n: usize, p: &[u8; 32]) {
    use crate::witness::WitnessCalculator;
    let mut prime = vec![];
    for i in 0..8 {
        prime.push(u32at(p, 4 * i));
    }
    let mut wit = vec![];
    let mut vals = vec![];
    for _ in 0..n {
        let b = bytes(32);
        assume(below(&b, p));
        for i in 0..8 {
            wit.push(u32at(&b, 4 * i));
        }
        vals.push(b);
    }
    let v = u8_();
    assume(v <= 2);
    wasmer::CIRCUIT.with(|c| *c.borrow_mut() = wasmer::Circuit { n32: 8, prime, wit: wit.clone(), version: if v == 0 { None } else { Some(v as u32) }, ..Default::default() });
    let mut w = WitnessCalculator::from_file("circuit").unwrap();
    let inputs: Vec<(String, Vec<num_bigint::BigInt>)> = vec![];
    let words = w.calculate_witness_bin(inputs, false).unwrap();
    check(words == wit, "the words of the circuit's witness");
    let mut out: Vec<u8> = vec![];
    w.save_witness_from_bin_writer::<E, _>(&mut out, &words).unwrap();
    check(out.len() == 76 + 32 * n, "length of the file");
    let got = load_witness_from_array::<E>(out);
    match got {
        Err(_) => check(false, "the written file is accepted"),
        Ok(g) => {
            check(g.len() == n, "as many elements as were written");
            for (e, b) in g.iter().zip(&vals) {
                check(raw(e) == *b, "the elements written");
            }
        }
    }
    mark(n as u64);
}
pub fn p22_written_0() {
    written(0)
}
pub fn p22_written_1() {
    written(1)
}
pub fn p22_written_3() {
    written(3)
}
pub fn p22_written_bls() {
    written_as::<L>(2, &PL)
}
/// big integers of the witness agree with its words
pub fn p22_calculated() {
    use crate::witness::WitnessCalculator;
    let wit: Vec<u32> = (0..4).map(|_| u32_()).collect();
    wasmer::CIRCUIT.with(|c| *c.borrow_mut() = wasmer::Circuit { n32: 2, prime: vec![1, 0xffff_ffff], wit: wit.clone(), version: Some(2), ..Default::default() });
    let mut w = WitnessCalculator::from_file("circuit").unwrap();
    let x = u64_();
    let inputs = vec![("in".to_string(), vec![num_bigint::BigInt::from(x)])];
    let v = w.calculate_witness(inputs, false).unwrap();
    check(v.len() == 2, "number of elements");
    for i in 0..2 {
        check(v[i] == num_bigint::BigInt::from(wit[2 * i] as u64 | (wit[2 * i + 1] as u64) << 32), "value of an element");
    }
    wasmer::CIRCUIT.with(|c| {
        let c = c.borrow();
        check(c.inputs.len() == 1 && c.inputs[0].2 == 0 && c.inputs[0].3 == vec![x as u32, (x >> 32) as u32], "the input the circuit receives");
    });
}
