//! `D`: the abstract number of absf with every choice fixed, so that evaluation folds to constants.
//! For properties that speak about array counts and lengths only.
include!("absf_core.rs");
pub type D = H;

fn anyb() -> bool {
    true
}
fn anyi() -> i64 {
    0
}
fn anyu() -> u64 {
    0
}
fn anyc(_: u8) -> u8 {
    0
}
fn unrepresentable() -> bool {
    false
}
