//! A recorder in place of the Rust functions the bindings forward to.
use std::mem::size_of;
/// what the next call is expected to be, and what it is to answer
pub struct Expect {
    pub method: u8,
    pub rect: bool,
    pub width: usize,
    pub dims: [usize; 3],
    pub ndims: usize,
    pub starts: (usize, [u64; 2]),
    pub steps: (usize, [u64; 2]),
    pub vals: (usize, [u64; 2]),
    pub grids: (usize, [(usize, u64); 9]),
    pub obs: (usize, [(usize, u64); 9]),
    pub flag: bool,
    pub atol: u64,
    pub out: (usize, u64),
    /// answer: what is written to the first entry of out, and whether the call succeeds
    pub write: u64,
    pub ok: bool,
    // outcome
    pub calls: usize,
    pub good: bool,
    pub which: u8,
}
pub static mut E: Expect = Expect {
    method: 9,
    rect: false,
    width: 0,
    dims: [0; 3],
    ndims: 0,
    starts: (0, [0; 2]),
    steps: (0, [0; 2]),
    vals: (0, [0; 2]),
    grids: (0, [(0, 0); 9]),
    obs: (0, [(0, 0); 9]),
    flag: false,
    atol: 0,
    out: (0, 0),
    write: 0,
    ok: false,
    calls: 0,
    good: false,
    which: 0,
};
pub fn bits<T: Copy>(x: T) -> u64 {
    unsafe {
        match size_of::<T>() {
            8 => std::mem::transmute_copy::<T, u64>(&x),
            4 => std::mem::transmute_copy::<T, u32>(&x) as u64,
            _ => std::mem::transmute_copy::<T, u8>(&x) as u64,
        }
    }
}
pub fn unbits<T: Copy>(x: u64) -> T {
    unsafe {
        match size_of::<T>() {
            8 => std::mem::transmute_copy::<u64, T>(&x),
            4 => std::mem::transmute_copy::<u32, T>(&(x as u32)),
            _ => std::mem::transmute_copy::<u8, T>(&((x & 1) as u8)),
        }
    }
}
fn same<T: Copy>(a: &[T], e: &(usize, [u64; 2])) -> bool {
    a.len() == e.0 && (a.is_empty() || bits(a[0]) == e.1[0]) && (a.len() < 2 || bits(a[1]) == e.1[1])
}
fn same_list<T: Copy>(a: &[&[T]], e: &(usize, [(usize, u64); 9])) -> bool {
    if a.len() != e.0 {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i].len() == e.1[i].0 && (a[i].is_empty() || bits(a[i][0]) == e.1[i].1);
    }
    ok
}
pub struct Call<'a, T, O> {
    pub method: u8,
    pub rect: bool,
    pub dims: &'a [usize],
    pub starts: &'a [T],
    pub steps: &'a [T],
    pub vals: &'a [T],
    pub grids: &'a [&'a [T]],
    pub flag: bool,
    pub obs: &'a [&'a [T]],
    pub atol: Option<T>,
    pub out: &'a mut [O],
}
impl<'a, T: Copy, O: Copy> Call<'a, T, O> {
    pub fn record(self) -> Result<(), &'static str> {
        unsafe {
            E.calls += 1;
            let mut ok = self.method == E.method && self.rect == E.rect && size_of::<T>() == E.width;
            ok &= same_list(self.obs, &E.obs);
            if self.rect {
                ok &= same_list(self.grids, &E.grids);
            } else {
                ok &= self.dims.len() == E.ndims && same(self.starts, &E.starts) && same(self.steps, &E.steps);
                for i in 0..self.dims.len() {
                    ok &= i < 3 && self.dims[i] == E.dims[i];
                }
            }
            if self.method < 3 {
                ok &= same(self.vals, &E.vals);
            }
            if self.method == 2 {
                ok &= self.flag == E.flag;
            }
            if let Some(a) = self.atol {
                ok &= bits(a) == E.atol;
            }
            // the caller's own buffer, with what it held
            ok &= self.out.len() == E.out.0 && (self.out.is_empty() || bits(self.out[0]) == E.out.1);
            E.good = ok;
            if !self.out.is_empty() {
                self.out[0] = unbits(E.write);
            }
            if E.ok { Ok(()) } else { Err("answer") }
        }
    }
}
macro_rules! grid_modules {
    ($outer:ident, $m:literal, ($($flag:ident)?), ($($extra:ident)*)) => {
        pub mod $outer {
            pub use ::interpn::$outer::*;
            pub mod regular {
                pub use ::interpn::$outer::regular::*;
                pub fn interpn<T: Copy>(dims: &[usize], starts: &[T], steps: &[T], vals: &[T], $($flag: bool,)? obs: &[&[T]], out: &mut [T]) -> Result<(), &'static str> {
                    crate::rec::Call { method: $m, rect: false, dims, starts, steps, vals, grids: &[], flag: false $(|| $flag)?, obs, atol: None, out }.record()
                }
                pub fn check_bounds<T: Copy>(dims: &[usize], starts: &[T], steps: &[T], obs: &[&[T]], atol: T, out: &mut [bool]) -> Result<(), &'static str> {
                    crate::rec::Call { method: 3, rect: false, dims, starts, steps, vals: &[], grids: &[], flag: false, obs, atol: Some(atol), out }.record()
                }
            }
            pub mod rectilinear {
                pub use ::interpn::$outer::rectilinear::*;
                pub fn interpn<T: Copy>(grids: &[&[T]], vals: &[T], $($flag: bool,)? obs: &[&[T]], out: &mut [T]) -> Result<(), &'static str> {
                    crate::rec::Call { method: $m, rect: true, dims: &[], starts: &[], steps: &[], vals, grids, flag: false $(|| $flag)?, obs, atol: None, out }.record()
                }
                pub fn check_bounds<T: Copy>(grids: &[&[T]], obs: &[&[T]], atol: T, out: &mut [bool]) -> Result<(), &'static str> {
                    crate::rec::Call { method: 3, rect: true, dims: &[], starts: &[], steps: &[], vals: &[], grids, flag: false, obs, atol: Some(atol), out }.record()
                }
            }
        }
    };
}
grid_modules!(multilinear, 0, (), ());
grid_modules!(nearest, 1, (), ());
grid_modules!(multicubic, 2, (linearize_extrapolation), ());
