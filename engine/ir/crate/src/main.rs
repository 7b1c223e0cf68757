// runs wrappers on concrete arguments: one line per request "name a b ..", one line per answer (decimal, or "panic")
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut w = l.split_whitespace();
        let name = w.next().unwrap().to_string();
        let v: Vec<u64> = w.map(|x| x.parse().unwrap()).collect();
        match std::panic::catch_unwind(|| irx::call(&name, &v)) {
            Ok(x) => println!("{x}"),
            Err(_) => println!("panic"),
        }
    }
}
