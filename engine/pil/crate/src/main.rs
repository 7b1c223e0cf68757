#![allow(dead_code, unused_imports, clippy::all)]
mod c {
    #[path = "@REPO@/recursion/src/compressor12/constants.rs"]
    mod constants;
    pub fn print() {
        println!("C {}", constants::CPOSEIDON.len());
        for c in constants::CPOSEIDON.iter() {
            println!("{c}");
        }
    }
}
#[path = "@REPO@/recursion/src/compressor12/compressor12_pil.rs"]
mod compressor12_pil;
/// args: pairs n_bits n_publics
fn main() {
    c::print();
    let a: Vec<usize> = std::env::args().skip(1).map(|s| s.parse().unwrap()).collect();
    for p in a.chunks(2) {
        let t = compressor12_pil::render(p[0], p[1]);
        println!("P {} {} {}", p[0], p[1], t.split('\n').count());
        println!("{t}");
    }
}
