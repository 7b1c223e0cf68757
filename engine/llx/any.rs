//! symbolic inputs: the executor's under symbolic execution, recorded ones natively
extern "C" {
    fn sx_sym(p: *mut u8, n: usize);
    fn sx_assume(b: bool);
    fn sx_assert(b: bool, m: *const u8, n: usize);
    fn sx_mark(v: u64);
    fn sx_one(v: u64) -> u64;
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sx_sym(v.as_mut_ptr(), n) }
    v
}
pub fn fill(p: &mut [u8]) {
    unsafe { sx_sym(p.as_mut_ptr(), p.len()) }
}
pub fn u64_() -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b);
    u64::from_le_bytes(b)
}
pub fn u32_() -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b);
    u32::from_le_bytes(b)
}
pub fn u8_() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}
pub fn assume(b: bool) {
    unsafe { sx_assume(b) }
}
/// any number below n, each followed separately
pub fn choose(n: usize) -> usize {
    let k = u8_() as usize;
    assume(n <= 256 && k < n);
    unsafe { sx_one(k as u64) as usize }
}
/// the property
pub fn check(b: bool, m: &str) {
    unsafe { sx_assert(b, m.as_ptr(), m.len()) }
}
/// an observation: compared between the symbolic run and the native one
pub fn mark(v: u64) {
    unsafe { sx_mark(v) }
}

#[cfg(feature = "native")]
pub mod rt {
    use std::sync::Mutex;
    pub static IN: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
    #[no_mangle]
    pub unsafe extern "C" fn sx_sym(p: *mut u8, n: usize) {
        let mut q = IN.lock().unwrap();
        for i in 0..n {
            let k = q.1;
            *p.add(i) = q.0.get(k).copied().unwrap_or(0);
            q.1 += 1;
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn sx_assume(b: bool) {
        if !b {
            println!("SKIP");
            std::process::exit(0)
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn sx_assert(b: bool, m: *const u8, n: usize) {
        if !b {
            println!("FAILED {}", std::str::from_utf8(std::slice::from_raw_parts(m, n)).unwrap());
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn sx_mark(v: u64) {
        println!("MARK {v}");
    }
    #[no_mangle]
    pub unsafe extern "C" fn sx_one(v: u64) -> u64 {
        v
    }
    /// one allocation of more than 64 MiB where the input is a few hundred bytes
    struct Watch;
    static WATCH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    unsafe impl std::alloc::GlobalAlloc for Watch {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            if l.size() > 1 << 26 && WATCH.swap(false, std::sync::atomic::Ordering::SeqCst) {
                println!("FAILED allocates {} bytes at once", l.size());
                std::process::exit(0);
            }
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            std::alloc::System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Watch = Watch;
    /// args: harness name, input bytes in hex
    pub fn main(table: &[(&str, fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let h = a.get(2).cloned().unwrap_or_default();
        IN.lock().unwrap().0 = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        std::panic::set_hook(Box::new(|i| {
            let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("PANIC {}:{} {}", i.location().map(|l| l.file()).unwrap_or(""), i.location().map(|l| l.line()).unwrap_or(0), m);
            std::process::exit(0);
        }));
        for (n, f) in table {
            if *n == a[1] {
                WATCH.store(n.contains("_alloc"), std::sync::atomic::Ordering::SeqCst);
                f();
                println!("DONE");
                return;
            }
        }
        println!("NONE");
    }
}
