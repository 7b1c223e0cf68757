//! The names of wasmer that the witness calculator uses, over a circuit that is a table of functions.
#![allow(non_snake_case)]
use std::cell::RefCell;
thread_local! {
    /// field words, prime (words, most significant last), witness words
    pub static CIRCUIT: RefCell<Circuit> = const { RefCell::new(Circuit { n32: 0, prime: Vec::new(), wit: Vec::new(), inputs: Vec::new(), shared: Vec::new(), version: None }) };
}
#[derive(Clone, Debug, Default)]
pub struct Circuit {
    pub n32: u32,
    pub prime: Vec<u32>,
    pub wit: Vec<u32>,
    /// what setInputSignal received: name hash, position, value words
    pub inputs: Vec<(u32, u32, u32, Vec<u32>)>,
    pub shared: Vec<u32>,
    pub version: Option<u32>,
}
#[derive(Default, Debug)]
pub struct Store;
#[derive(Clone, Debug)]
pub struct Memory;
pub struct MemoryType;
impl MemoryType {
    pub fn new(_: u32, _: Option<u32>, _: bool) -> Self {
        Self
    }
}
impl Memory {
    pub fn new(_: &mut Store, _: MemoryType) -> Result<Self, RuntimeError> {
        Ok(Self)
    }
}
pub struct Module;
impl Module {
    pub fn from_file(_: &Store, _: impl AsRef<std::path::Path>) -> Result<Self, RuntimeError> {
        Ok(Self)
    }
}
#[derive(Debug)]
pub struct RuntimeError(pub String);
impl RuntimeError {
    pub fn new<M: Into<String>>(m: M) -> Self {
        Self(m.into())
    }
}
impl std::fmt::Display for RuntimeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RuntimeError {}
#[derive(Clone, Debug)]
pub struct Function(pub &'static str);
impl Function {
    pub fn new_typed<F>(_: &mut Store, _: F) -> Self {
        Function("host")
    }
    pub fn call(&self, _: &mut Store, a: &[Value]) -> Result<Box<[Value]>, RuntimeError> {
        CIRCUIT.with(|c| {
            let mut c = c.borrow_mut();
            let n = c.n32 as usize;
            let one = |v: u32| -> Result<Box<[Value]>, RuntimeError> { Ok(Box::new([Value::I32(v as i32)])) };
            let none: Result<Box<[Value]>, RuntimeError> = Ok(Box::new([]));
            let at = |i: usize| match a[i] {
                Value::I32(v) => v as u32,
            };
            let l = n.max(c.shared.len());
            c.shared.resize(l, 0);
            match self.0 {
                "getFieldNumLen32" => one(n as u32),
                "getRawPrime" => {
                    c.shared = c.prime.clone();
                    none
                }
                "readSharedRWMemory" => one(c.shared[at(0) as usize]),
                "writeSharedRWMemory" => {
                    let (i, v) = (at(0) as usize, at(1));
                    c.shared[i] = v;
                    none
                }
                "setInputSignal" => {
                    let v = c.shared[..n].to_vec();
                    c.inputs.push((at(0), at(1), at(2), v));
                    none
                }
                "getWitness" => {
                    let i = at(0) as usize;
                    c.shared = c.wit[i * n..(i + 1) * n].to_vec();
                    none
                }
                "getWitnessSize" => one((c.wit.len() / n) as u32),
                "getVersion" => one(c.version.unwrap()),
                "init" => none,
                _ => Err(RuntimeError::new("function")),
            }
        })
    }
}
#[derive(Clone, Debug)]
pub struct Exports;
static FS: [Function; 9] = [Function("getFieldNumLen32"), Function("getRawPrime"), Function("readSharedRWMemory"), Function("writeSharedRWMemory"), Function("setInputSignal"), Function("getWitness"), Function("getWitnessSize"), Function("getVersion"), Function("init")];
impl Exports {
    pub fn get_function(&self, n: &str) -> Result<&Function, RuntimeError> {
        if n == "getVersion" && CIRCUIT.with(|c| c.borrow().version.is_none()) {
            return Err(RuntimeError::new("missing"));
        }
        FS.iter().find(|f| f.0 == n).ok_or(RuntimeError::new("missing"))
    }
}
#[derive(Clone, Debug)]
pub struct Instance {
    pub exports: Exports,
}
impl Instance {
    pub fn new<T>(_: &mut Store, _: &Module, _: &T) -> Result<Self, RuntimeError> {
        Ok(Self { exports: Exports })
    }
}
pub enum Value {
    I32(i32),
}
impl Value {
    pub fn unwrap_i32(&self) -> i32 {
        match self {
            Value::I32(v) => *v,
        }
    }
}
impl From<u32> for Value {
    fn from(v: u32) -> Self {
        Value::I32(v as i32)
    }
}
#[macro_export]
macro_rules! imports {
    ($($m:expr => { $($n:expr => $v:expr),* $(,)? }),* $(,)?) => {{ $($(let _ = ($m, $n, &$v);)*)* }};
}
