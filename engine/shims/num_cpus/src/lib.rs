//! Stand-in whose answer the harness chooses, so that the worker count is a parameter.
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(4);
pub fn set(n: usize) {
    N.store(n, Ordering::SeqCst)
}
pub fn get() -> usize {
    N.load(Ordering::SeqCst)
}
pub fn get_physical() -> usize {
    get()
}
