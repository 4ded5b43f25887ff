//! Where a harness gets its choices from: the model checker, or recorded/random numbers natively.
pub trait Src {
    fn raw(&mut self) -> u64;
    fn assume(&mut self, c: bool);
    fn cover(&mut self, c: bool, what: &'static str);
    fn upto(&mut self, max: usize) -> usize {
        let x = self.raw() as usize;
        self.assume(x <= max);
        x
    }
    fn flag(&mut self) -> bool {
        self.upto(1) == 1
    }
}
#[cfg(kani)]
pub mod k {
    use super::*;
    /// Shows up in the counterexample trace with its argument.
    #[inline(never)]
    pub fn witness(value: u64) -> u64 {
        value
    }
    pub struct K;
    impl Src for K {
        fn raw(&mut self) -> u64 {
            witness(kani::any())
        }
        fn assume(&mut self, c: bool) {
            kani::assume(c)
        }
        fn cover(&mut self, c: bool, what: &'static str) {
            kani::cover(c, "reachable");
        }
    }
}
/// Numbers as recorded, then pseudo-random ones.
pub struct Replay {
    pub list: Vec<u64>,
    pub pos: usize,
    pub seed: u64,
}
pub struct Skip;
impl Replay {
    pub fn next(&mut self) -> u64 {
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.seed ^ (self.seed >> 29);
        x.wrapping_mul(0x9E3779B97F4A7C15) ^ (x >> 31)
    }
}
impl Src for Replay {
    fn raw(&mut self) -> u64 {
        self.pos += 1;
        if self.pos <= self.list.len() { self.list[self.pos - 1] } else { self.next() }
    }
    fn assume(&mut self, c: bool) {
        if !c {
            std::panic::panic_any(Skip)
        }
    }
    fn cover(&mut self, _: bool, _: &'static str) {}
    fn upto(&mut self, max: usize) -> usize {
        self.pos += 1;
        if self.pos <= self.list.len() { (self.list[self.pos - 1] as usize).min(max) } else { self.next() as usize % (max + 1) }
    }
}
