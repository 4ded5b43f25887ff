//! Where a harness gets its choices from: the model checker, or a recorded
//! counterexample replayed on real floats.
use crate::absd::D;
use crate::absf::H;
use num_traits::Float;

pub trait Scal: Float + 'static {
    /// class of the number: 0 zero, 1 positive, 2 negative, 3 +inf, 4 -inf, 5 NaN
    fn class(self) -> u8;
}
macro_rules! abs {
    ($t:ident) => {
        impl Scal for $t {
            fn class(self) -> u8 {
                if self.0 > 5 { 5 } else { self.0 }
            }
        }
    };
}
abs!(H);
abs!(D);
macro_rules! scal {
    ($t:ty) => {
        impl Scal for $t {
            fn class(self) -> u8 {
                if self.is_nan() {
                    5
                } else if self == 0.0 {
                    0
                } else if self.is_infinite() {
                    if self > 0.0 { 3 } else { 4 }
                } else if self > 0.0 {
                    1
                } else {
                    2
                }
            }
        }
    };
}
scal!(f32);
scal!(f64);

pub trait Src<T: Scal> {
    /// any number up to and including max
    fn upto(&mut self, max: usize) -> usize;
    fn any_usize(&mut self) -> usize;
    fn flag(&mut self) -> bool;
    /// any float of one of the classes 0..n
    fn scalar(&mut self, n: u8) -> T;
    /// any table
    fn table<const M: usize>(&mut self) -> [T; M];
    fn assume(&mut self, c: bool);
    fn cover(&mut self, c: bool, what: &'static str);
}

#[cfg(kani)]
pub mod k {
    use super::*;
    /// Shows up in the counterexample trace with its argument.
    #[inline(never)]
    pub fn witness(value: u64) -> u64 {
        value
    }
    pub struct K;
    macro_rules! abs {
        ($t:ident, $fixed:literal) => {
            impl Src<$t> for K {
                fn upto(&mut self, max: usize) -> usize {
                    upto(max)
                }
                fn any_usize(&mut self) -> usize {
                    any_usize()
                }
                fn flag(&mut self) -> bool {
                    flag()
                }
                fn scalar(&mut self, n: u8) -> $t {
                    let c: u8 = kani::any();
                    kani::assume(c < n);
                    witness(c as u64);
                    $t { 0: c }
                }
                fn table<const M: usize>(&mut self) -> [$t; M] {
                    if $fixed {
                        return [$t { 0: 0 }; M];
                    }
                    // repr(transparent) over u8 and every byte is valid
                    let b: [u8; M] = kani::any();
                    unsafe { std::mem::transmute_copy(&b) }
                }
                fn assume(&mut self, c: bool) {
                    kani::assume(c)
                }
                fn cover(&mut self, c: bool, _: &'static str) {
                    kani::cover!(c);
                }
            }
        };
    }
    abs!(H, false);
    abs!(D, true);
    fn upto(max: usize) -> usize {
        if max == 0 {
            // a constant for the unrolling
            witness(0);
            return 0;
        }
        let v: usize = kani::any();
        kani::assume(v <= max);
        witness(v as u64);
        v
    }
    fn any_usize() -> usize {
        let v: usize = kani::any();
        witness(v as u64);
        v
    }
    fn flag() -> bool {
        let v: bool = kani::any();
        witness(v as u64);
        v
    }
    macro_rules! bits {
        ($t:ty) => {
            impl Src<$t> for K {
                fn upto(&mut self, max: usize) -> usize {
                    upto(max)
                }
                fn any_usize(&mut self) -> usize {
                    any_usize()
                }
                fn flag(&mut self) -> bool {
                    flag()
                }
                fn scalar(&mut self, n: u8) -> $t {
                    let v: $t = kani::any();
                    let c = v.class();
                    kani::assume(c < n);
                    witness(c as u64);
                    v
                }
                fn table<const M: usize>(&mut self) -> [$t; M] {
                    // only the length of the table matters to the bit-precise harnesses
                    [0.0; M]
                }
                fn assume(&mut self, c: bool) {
                    kani::assume(c)
                }
                fn cover(&mut self, c: bool, _: &'static str) {
                    kani::cover!(c);
                }
            }
        };
    }
    bits!(f64);
    bits!(f32);
}

/// Replay: integers and classes from the recorded counterexample while it lasts
/// (`pin`), the floats themselves from a pseudo-random choice of representatives.
pub struct Replay {
    pub list: Vec<u64>,
    pub pos: usize,
    pub pin: bool,
    pub seed: u64,
    pub log: Vec<String>,
}
pub struct Skip;
/// Heap allocations made by the code under test (the replay's own are not counted).
#[cfg(not(kani))]
pub mod heap {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
    pub static ARMED: AtomicBool = AtomicBool::new(false);
    pub static COUNT: AtomicU64 = AtomicU64::new(0);
    pub struct Counting;
    fn note() {
        if ARMED.load(Relaxed) {
            COUNT.fetch_add(1, Relaxed);
        }
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            note();
            unsafe { System.alloc(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            unsafe { System.dealloc(p, l) }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            note();
            unsafe { System.alloc_zeroed(l) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            note();
            unsafe { System.realloc(p, l, n) }
        }
    }
    pub struct Pause(bool);
    pub fn pause() -> Pause {
        Pause(ARMED.swap(false, Relaxed))
    }
    impl Drop for Pause {
        fn drop(&mut self) {
            ARMED.store(self.0, Relaxed);
        }
    }
}
#[cfg(kani)]
pub mod heap {
    pub fn pause() {}
}
impl Replay {
    fn rnd(&mut self, n: u64) -> u64 {
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.seed >> 33) % n
    }
    fn next(&mut self) -> Option<u64> {
        let v = self.list.get(self.pos).copied();
        self.pos += 1;
        v
    }
    fn float(&mut self, class: u8) -> f64 {
        const POSV: [f64; 26] = [
            1.0, 2.0, 0.5, 3.0, 0.25, 1.5, 2.5, 4.0, 0.75, 7.0, 1e-9, 1e6, 1e15, 1e18, 9223372036854774784.0,
            9223372036854775808.0, 4611686018427387904.0, 1e19, 18446744073709549568.0, 1e30, 1e300, 5e-324,
            1e-310, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0,
        ];
        let p = if self.rnd(2) == 0 { POSV[self.rnd(5) as usize] } else { POSV[self.rnd(26) as usize] };
        match class {
            0 => {
                if self.rnd(2) == 0 {
                    0.0
                } else {
                    -0.0
                }
            }
            1 => p,
            2 => -p,
            3 => f64::INFINITY,
            4 => f64::NEG_INFINITY,
            _ => f64::NAN,
        }
    }
}
pub trait FromF64 {
    fn cv(x: f64) -> Self;
}
impl FromF64 for f64 {
    fn cv(x: f64) -> f64 {
        x
    }
}
impl FromF64 for f32 {
    fn cv(x: f64) -> f32 {
        let y = x as f32;
        // keep the class: no overflow or underflow by the conversion itself
        if x.is_finite() && y.is_infinite() {
            f32::MAX.copysign(x as f32)
        } else if x != 0.0 && y == 0.0 {
            1e-45f32.copysign(x as f32)
        } else {
            y
        }
    }
}
impl<T: Scal + FromF64 + std::fmt::Debug> Src<T> for Replay {
    fn upto(&mut self, max: usize) -> usize {
        let _quiet = heap::pause();
        let v = match self.next() {
            Some(v) if self.pin => v as usize,
            _ => self.rnd(max as u64 + 1) as usize,
        };
        Src::<T>::assume(self, v <= max);
        self.log.push(format!("{v}"));
        v
    }
    fn any_usize(&mut self) -> usize {
        let _quiet = heap::pause();
        let v = match self.next() {
            Some(v) if self.pin => v as usize,
            _ => [0, 1, 2, 3, 4, 5, 1 << 32, 1 << 62, 1 << 63, usize::MAX, usize::MAX / 2][self.rnd(11) as usize],
        };
        self.log.push(format!("{v}"));
        v
    }
    fn flag(&mut self) -> bool {
        let _quiet = heap::pause();
        let v = match self.next() {
            Some(v) if self.pin => v != 0,
            _ => self.rnd(2) == 0,
        };
        self.log.push(format!("{v}"));
        v
    }
    fn scalar(&mut self, n: u8) -> T {
        let _quiet = heap::pause();
        let c = match self.next() {
            Some(v) if self.pin => v as u8,
            _ => self.rnd(n as u64) as u8,
        };
        Src::<T>::assume(self, c < n);
        let v = T::cv(self.float(c));
        self.log.push(format!("{v:?}"));
        v
    }
    fn table<const M: usize>(&mut self) -> [T; M] {
        let _quiet = heap::pause();
        let wild = self.rnd(2) == 0;
        let mut t = [T::zero(); M];
        for v in t.iter_mut() {
            let c = if wild { self.rnd(6) as u8 } else { self.rnd(3) as u8 };
            *v = T::cv(self.float(c));
        }
        if M <= 16 {
            self.log.push(format!("table {t:?}"));
        }
        t
    }
    fn assume(&mut self, c: bool) {
        let _quiet = heap::pause();
        if !c {
            std::panic::panic_any(Skip);
        }
    }
    fn cover(&mut self, _: bool, _: &'static str) {}
}
