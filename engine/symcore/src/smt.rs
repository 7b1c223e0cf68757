//! One z3 process, fed over a pipe.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::time::Instant;

pub struct Smt {
    child: Child,
    inp: std::process::ChildStdin,
    out: BufReader<std::process::ChildStdout>,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub bytes: u64,
    pub name: String,
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Verdict {
    Sat,
    Unsat,
    Unknown,
}

impl Smt {
    pub fn new() -> Smt {
        let name = std::env::var("SX_Z3").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(&name)
            .args(["-in", "-t:60000"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Smt { child, inp, out, queries: 0, unsat: 0, sat: 0, unknown: 0, secs: 0.0, bytes: 0, name }
    }
    /// body: declarations and assertions
    pub fn check(&mut self, body: &str) -> Verdict {
        let t = Instant::now();
        self.queries += 1;
        self.bytes += body.len() as u64;
        if let Ok(d) = std::env::var("SX_DUMP") {
            let _ = std::fs::write(format!("{d}/q{}.smt2", self.queries), format!("{body}\n(check-sat)\n"));
        }
        let w = self
            .inp
            .write_all(b"(push)\n")
            .and_then(|_| self.inp.write_all(body.as_bytes()))
            .and_then(|_| self.inp.write_all(b"\n(check-sat)\n(pop)\n"))
            .and_then(|_| self.inp.flush());
        let mut v = Verdict::Unknown;
        if w.is_ok() {
            let mut err = false;
            loop {
                let mut line = String::new();
                if self.out.read_line(&mut line).unwrap_or(0) == 0 {
                    break;
                }
                let l = line.trim();
                if l.starts_with("(error") {
                    eprintln!("smt: {l}");
                    err = true;
                    continue;
                }
                match l {
                    "sat" => v = Verdict::Sat,
                    "unsat" => v = Verdict::Unsat,
                    "unknown" | "timeout" => v = Verdict::Unknown,
                    _ => continue,
                }
                break;
            }
            if err {
                v = Verdict::Unknown;
            }
        }
        self.secs += t.elapsed().as_secs_f64();
        match v {
            Verdict::Sat => self.sat += 1,
            Verdict::Unsat => self.unsat += 1,
            Verdict::Unknown => self.unknown += 1,
        }
        v
    }
}

impl Drop for Smt {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
