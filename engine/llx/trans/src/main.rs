#[cfg(feature = "native")]
fn main() {
    hx::any::rt::main(hx::TABLE)
}
#[cfg(not(feature = "native"))]
fn main() {}
