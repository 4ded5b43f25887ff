//! `H`: an abstract floating-point number for bounded model checking.
//!
//! An `H` stands for a class of floats (zero, positive, negative, +inf, -inf, NaN).  Every operation
//! returns an arbitrary member of the set of classes the IEEE operation can
//! return on those classes, every comparison an arbitrary boolean consistent with
//! the classes, every conversion to an integer an arbitrary representable
//! integer (or None).  A proof over `H` therefore covers every f32 and every f64.
include!("absf_core.rs");

#[cfg(kani)]
fn anyb() -> bool {
    kani::any()
}
#[cfg(not(kani))]
fn anyb() -> bool {
    false
}
#[cfg(kani)]
fn anyi() -> i64 {
    kani::any()
}
#[cfg(not(kani))]
fn anyi() -> i64 {
    0
}
#[cfg(kani)]
fn anyu() -> u64 {
    kani::any()
}
#[cfg(not(kani))]
fn anyu() -> u64 {
    0
}
#[cfg(kani)]
fn anyc(n: u8) -> u8 {
    let c: u8 = kani::any();
    kani::assume(c < n);
    c
}
#[cfg(not(kani))]
fn anyc(_: u8) -> u8 {
    0
}
/// does the conversion to an integer fail?
fn unrepresentable() -> bool {
    anyb()
}
