pub mod big;
pub mod smt;
pub mod sym;
