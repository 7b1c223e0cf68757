// one line per request "name a.. b.." (N words each); the answer is the 2N result words joined by commas
use std::io::BufRead;
use irx::N;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut w = l.split_whitespace();
        let name = w.next().unwrap().to_string();
        let v: Vec<u64> = w.map(|x| x.parse().unwrap()).collect();
        let r = std::panic::catch_unwind(|| {
            let (mut a, mut b, mut o, mut q) = ([0u64; N], [0u64; N], [0u64; N], [0u64; N]);
            a.copy_from_slice(&v[..N]);
            b.copy_from_slice(&v[N..2 * N]);
            irx::call(&name, &a, &b, &mut o, &mut q);
            o.iter().chain(q.iter()).map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        });
        println!("{}", r.unwrap_or("panic".into()));
    }
}
