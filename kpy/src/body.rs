use crate::rec::{E, bits, unbits};
use crate::src::Src;
use pyo3::{Args, PyResult, Val};

pub trait Fl: Copy + PartialEq + 'static {
    const WIDTH: usize;
    fn arr<'a>(s: &'a [Self], c: bool) -> Val<'a>;
    fn list<'a>(s: &'a [(&'a [Self], bool)]) -> Val<'a>;
    fn outv<'a>(s: &'a mut [Self], c: bool) -> Val<'a>;
    fn num(x: u64) -> (Val<'static>, u64);
    fn of(x: f64) -> Self;
    fn core(method: u8, rect: bool, dims: &[usize], starts: &[Self], steps: &[Self], grids: &[&[Self]], vals: &[Self], flag: bool, obs: &[&[Self]], atol: Self, out: &mut [Self], outb: &mut [bool]) -> Result<(), &'static str>;
}
macro_rules! fl {
    ($t:ty, $w:literal, $a:ident, $l:ident, $o:ident) => {
        impl Fl for $t {
            const WIDTH: usize = $w;
            fn arr<'a>(s: &'a [Self], c: bool) -> Val<'a> {
                Val::$a(s, c)
            }
            fn list<'a>(s: &'a [(&'a [Self], bool)]) -> Val<'a> {
                Val::$l(s)
            }
            fn outv<'a>(s: &'a mut [Self], c: bool) -> Val<'a> {
                Val::$o(s, c)
            }
            /// a number of this type as a Python float, and its bits
            fn num(x: u64) -> (Val<'static>, u64) {
                let v: $t = unbits(x);
                (Val::Num(v as f64), bits(v))
            }
            fn of(x: f64) -> Self {
                x as $t
            }
            fn core(method: u8, rect: bool, dims: &[usize], starts: &[Self], steps: &[Self], grids: &[&[Self]], vals: &[Self], flag: bool, obs: &[&[Self]], atol: Self, out: &mut [Self], outb: &mut [bool]) -> Result<(), &'static str> {
                use ::interpn::{multicubic, multilinear, nearest};
                match (method, rect) {
                    (0, false) => multilinear::regular::interpn(dims, starts, steps, vals, obs, out),
                    (0, true) => multilinear::rectilinear::interpn(grids, vals, obs, out),
                    (1, false) => nearest::regular::interpn(dims, starts, steps, vals, obs, out),
                    (1, true) => nearest::rectilinear::interpn(grids, vals, obs, out),
                    (2, false) => multicubic::regular::interpn(dims, starts, steps, vals, flag, obs, out),
                    (2, true) => multicubic::rectilinear::interpn(grids, vals, flag, obs, out),
                    (3, false) => multilinear::regular::check_bounds(dims, starts, steps, obs, atol, outb),
                    _ => multilinear::rectilinear::check_bounds(grids, obs, atol, outb),
                }
            }
        }
    };
}
fl!(f64, 8, A64, L64, O64);
fl!(f32, 4, A32, L32, O32);

/// the names under which Python passes the arguments
pub const fn params(method: u8, rect: bool) -> &'static [&'static str] {
    match (method, rect) {
        (0 | 1, false) => &["dims", "starts", "steps", "vals", "obs", "out"],
        (0 | 1, true) => &["grids", "vals", "obs", "out"],
        (2, false) => &["dims", "starts", "steps", "vals", "linearize_extrapolation", "obs", "out"],
        (2, true) => &["grids", "vals", "linearize_extrapolation", "obs", "out"],
        (3, false) => &["dims", "starts", "steps", "obs", "atol", "out"],
        _ => &["grids", "obs", "atol", "out"],
    }
}
pub const fn eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub type CallFn = for<'a, 'b> fn(&'a mut Args<'b>) -> PyResult<()>;

/// for each parameter of the function, the place of the argument of that name among the documented ones
pub const fn places(names: &[&str], params: &[&str]) -> ([usize; 8], bool) {
    let mut out = [8; 8];
    let (mut k, mut p) = (0, 0);
    while p < params.len() {
        let mut j = 0;
        while j < names.len() {
            if eq(params[p], names[j]) && k < 8 {
                out[k] = j;
                k += 1;
            }
            j += 1;
        }
        p += 1;
    }
    (out, k == names.len())
}
/// the exported function: whether its name is right, where its arguments go, how to call it
#[derive(Clone, Copy)]
pub struct Fun {
    pub named: bool,
    pub places: ([usize; 8], bool),
    pub call: CallFn,
}
fn arrange<'a>(places: &[usize; 8], vals: [Val<'a>; 8]) -> [Val<'a>; 8] {
    let mut vals = vals;
    let mut one = |i: usize| if places[i] < 8 { std::mem::replace(&mut vals[places[i]], Val::Gone) } else { Val::Gone };
    [one(0), one(1), one(2), one(3), one(4), one(5), one(6), one(7)]
}

/// One call with arbitrary arrays: any numbers (up to N) of grids and observation arrays, lengths (up to 2),
/// contents, contiguity; the function behind it answers anything.
#[cfg(kani)]
pub fn forward<T: Fl, S: Src, const NG: usize, const NO: usize>(s: &mut S, method: u8, rect: bool, f: Fun) {
    assert!(f.named, "the function is exported under its own name");
    let ndims = NO % 3;
    let dims = [s.raw() as usize, s.raw() as usize];
    let st: [T; 2] = [unbits(s.raw()), unbits(s.raw())];
    let sp: [T; 2] = [unbits(s.raw()), unbits(s.raw())];
    let va: [T; 2] = [unbits(s.raw()), unbits(s.raw())];
    let (ls, lp, lv) = (s.upto(2), s.upto(2), s.upto(2));
    let ng = if rect { NG } else { 0 };
    let no = NO;
    let mut gb: [[T; 1]; 9] = [[unbits(0)]; 9];
    let mut ob: [[T; 1]; 9] = [[unbits(0)]; 9];
    let (mut gl, mut ol) = ([(0usize, true); 9], [(0usize, true); 9]);
    let mut contiguous = true;
    for i in 0..ng {
        gb[i][0] = unbits(s.raw());
        gl[i] = (s.upto(1), s.flag());
        contiguous &= gl[i].1;
    }
    for i in 0..no {
        ob[i][0] = unbits(s.raw());
        ol[i] = (s.upto(1), s.flag());
        contiguous &= ol[i].1;
    }
    let (c0, c1, c2, c3) = (s.flag(), s.flag(), s.flag(), s.flag());
    let (flag, atol) = (s.flag(), T::num(s.raw()));
    let lo = s.upto(1);
    let (mut out, mut outb): ([T; 1], [bool; 1]) = ([unbits(s.raw())], [s.flag()]);
    let atol_bits = atol.1;
    unsafe {
        E.method = method;
        E.rect = rect;
        E.width = T::WIDTH;
        E.dims = [dims[0], dims[1], 0];
        E.ndims = ndims;
        E.starts = (ls, [bits(st[0]), bits(st[1])]);
        E.steps = (lp, [bits(sp[0]), bits(sp[1])]);
        E.vals = (lv, [bits(va[0]), bits(va[1])]);
        E.grids.0 = ng;
        E.obs.0 = no;
        for i in 0..ng {
            E.grids.1[i] = (gl[i].0, bits(gb[i][0]));
        }
        for i in 0..no {
            E.obs.1[i] = (ol[i].0, bits(ob[i][0]));
        }
        E.flag = flag;
        E.atol = atol_bits;
        E.out = (lo, if method == 3 { outb[0] as u64 } else { bits(out[0]) });
        E.write = if method == 3 { s.flag() as u64 } else { bits::<T>(unbits(s.raw())) };
        E.ok = s.flag();
        E.calls = 0;
        E.good = false;
    }
    // not a NaN: a Python float need not keep a NaN's payload
    s.assume(method != 3 || unbits::<T>(atol_bits) == unbits::<T>(atol_bits));
    let before = if method == 3 { outb[0] as u64 } else { bits(out[0]) };
    let res;
    {
        let grids: [(&[T], bool); 9] = std::array::from_fn(|i| (&gb[i][..gl[i].0], gl[i].1));
        let obs: [(&[T], bool); 9] = std::array::from_fn(|i| (&ob[i][..ol[i].0], ol[i].1));
        let o = if method == 3 { Val::OB(&mut outb[..lo], c3) } else { T::outv(&mut out[..lo], c3) };
        let d = Val::Dims(&dims[..ndims]);
        let (a, b, c) = (T::arr(&st[..ls], c0), T::arr(&sp[..lp], c1), T::arr(&va[..lv], c2));
        let (g, ob) = (T::list(&grids[..ng]), T::list(&obs[..no]));
        let vals = match (method, rect) {
            (0 | 1, false) => [d, a, b, c, ob, o, Val::Gone, Val::Gone],
            (0 | 1, true) => [g, c, ob, o, Val::Gone, Val::Gone, Val::Gone, Val::Gone],
            (2, false) => [d, a, b, c, Val::Flag(flag), ob, o, Val::Gone],
            (2, true) => [g, c, Val::Flag(flag), ob, o, Val::Gone, Val::Gone, Val::Gone],
            (3, false) => [d, a, b, ob, atol.0, o, Val::Gone, Val::Gone],
            _ => [g, ob, atol.0, o, Val::Gone, Val::Gone, Val::Gone, Val::Gone],
        };
        assert!(f.places.1, "every argument has the name it is documented under");
        let list = arrange(&f.places.0, vals);
        let mut args = Args { list, next: 0 };
        res = (f.call)(&mut args);
    }
    contiguous &= c3;
    if method < 3 {
        contiguous &= c2;
    }
    if !rect {
        contiguous &= c0 && c1;
    }
    let fits = ng <= 8 && no <= 8;
    let after = if method == 3 { outb[0] as u64 } else { bits(out[0]) };
    unsafe {
        if fits && contiguous {
            assert!(E.calls == 1, "one call of a Rust function");
            assert!(E.good, "the Rust function of this method, grid kind and type, with the caller's arguments");
            assert!(res.is_ok() == E.ok, "the answer of the Rust function is passed on");
            assert!(after == if lo > 0 { E.write } else { before }, "the output array holds what the Rust function wrote");
        } else {
            assert!(res.is_err(), "more than 8 arrays, or an array that is not contiguous, raise an exception");
        }
    }
    kani::cover!(true, "reached");
}

/// Natively: the binding and the Rust function on the same arguments, side by side.
#[cfg(not(kani))]
pub fn forward<T: Fl, S: Src, const NG: usize, const NO: usize>(s: &mut S, method: u8, rect: bool, f: Fun) {
    assert!(f.named, "the function is exported under its own name");
    // the choices of the symbolic harness that decide between the cases, in its order, then valid problems at random
    let rnd = |s: &mut S| T::of((s.raw() % 4001) as f64 / 1000.0 - 2.0);
    let mode = s.upto(3);
    let n = 1 + s.upto(if mode == 0 { 9 } else { 4 });
    let m = s.upto(3) + 1;
    let mut dims: Vec<usize> = (0..n).map(|_| (if n > 5 { 2 } else { 4 }) + s.upto(1)).collect();
    if n > 7 {
        dims.iter_mut().for_each(|d| *d = 2);
    }
    let starts: Vec<T> = (0..n).map(|_| rnd(s)).collect();
    let steps: Vec<T> = (0..n).map(|_| T::of(0.25 + (s.raw() % 1000) as f64 / 500.0)).collect();
    let mut grids: Vec<Vec<T>> = vec![];
    for i in 0..n {
        let mut x = -2.0;
        grids.push((0..dims[i]).map(|_| { x += 0.1 + (s.raw() % 1000) as f64 / 700.0; T::of(x) }).collect());
    }
    let nv: usize = dims.iter().product();
    let mut vals: Vec<T> = (0..nv).map(|_| rnd(s)).collect();
    let mut obs: Vec<Vec<T>> = (0..n).map(|_| (0..m).map(|_| T::of((s.raw() % 6001) as f64 / 1000.0 - 2.5)).collect()).collect();
    let (flag, atol) = (s.flag(), T::of((s.raw() % 2001) as f64 / 1000.0));
    let mut lo = if method == 3 { n } else { m };
    // more arrays of one kind than of the other
    if mode == 0 {
        let k = s.upto(9);
        match s.upto(3) {
            0 => obs.truncate(k),
            1 => grids.truncate(k),
            _ => {}
        }
    }
    // arguments the Rust function refuses
    if mode == 1 {
        match s.upto(4) {
            0 => lo += 1,
            1 => { vals.pop(); }
            2 => { obs.pop(); }
            3 => obs.push(obs[0].clone()),
            _ => { dims[0] += 1; }
        }
    }
    let mut cont = [true; 5];
    let (mut cg, mut co) = (vec![true; grids.len()], vec![true; obs.len()]);
    if mode == 2 {
        let k = s.upto(4 + cg.len() + co.len());
        if k < 5 { cont[k] = false } else if k - 5 < cg.len() { cg[k - 5] = false } else { let i = k - 5 - cg.len(); if i < co.len() { co[i] = false } }
    }
    let mut contiguous = cont[3] && co.iter().all(|x| *x);
    contiguous &= method == 3 || cont[2];
    contiguous &= if rect { cg.iter().all(|x| *x) } else { cont[0] && cont[1] };
    let fits = (!rect || grids.len() <= 8) && obs.len() <= 8;
    let init: Vec<T> = (0..lo).map(|_| rnd(s)).collect();
    let (mut out1, mut out2) = (init.clone(), init.clone());
    let (mut ob1, mut ob2) = (vec![false; lo], vec![false; lo]);
    if mode == 3 { ob1.iter_mut().chain(ob2.iter_mut()).for_each(|x| *x = true); }
    let gs: Vec<&[T]> = grids.iter().map(|x| &x[..]).collect();
    let os: Vec<&[T]> = obs.iter().map(|x| &x[..]).collect();
    let want = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| T::core(method, rect, &dims, &starts, &steps, &gs, &vals, flag, &os, atol, &mut out2, &mut ob2)));
    let res;
    {
        let gl: Vec<(&[T], bool)> = gs.iter().zip(&cg).map(|(x, c)| (*x, *c)).collect();
        let ol: Vec<(&[T], bool)> = os.iter().zip(&co).map(|(x, c)| (*x, *c)).collect();
        let o = if method == 3 { Val::OB(&mut ob1, cont[3]) } else { T::outv(&mut out1, cont[3]) };
        let d = Val::Dims(&dims);
        let (a, b, c) = (T::arr(&starts, cont[0]), T::arr(&steps, cont[1]), T::arr(&vals, cont[2]));
        let (g, ob) = (T::list(&gl), T::list(&ol));
        let at = T::num(bits(atol)).0;
        let v = match (method, rect) {
            (0 | 1, false) => [d, a, b, c, ob, o, Val::Gone, Val::Gone],
            (0 | 1, true) => [g, c, ob, o, Val::Gone, Val::Gone, Val::Gone, Val::Gone],
            (2, false) => [d, a, b, c, Val::Flag(flag), ob, o, Val::Gone],
            (2, true) => [g, c, Val::Flag(flag), ob, o, Val::Gone, Val::Gone, Val::Gone],
            (3, false) => [d, a, b, ob, at, o, Val::Gone, Val::Gone],
            _ => [g, ob, at, o, Val::Gone, Val::Gone, Val::Gone, Val::Gone],
        };
        assert!(f.places.1, "every argument has the name it is documented under");
        let list = arrange(&f.places.0, v);
        let mut args = Args { list, next: 0 };
        res = (f.call)(&mut args);
    }
    let what = format!("ndims {n}, dims {dims:?}, {} grids, {} observation arrays of {m}, {} values, output of {lo}, contiguous {contiguous}", gs.len(), os.len(), vals.len());
    if !fits || !contiguous {
        assert!(res.is_err(), "more than 8 arrays, or an array that is not contiguous, raise an exception ({what})");
    } else if let Ok(want) = want {
        assert!(res.is_ok() == want.is_ok(), "the answer of the Rust function is passed on: {want:?} became {res:?} ({what})");
        let same = out1.iter().zip(&out2).all(|(a, b)| bits(*a) == bits(*b)) && ob1 == ob2;
        assert!(same, "the output array holds what the Rust function writes ({what})");
    }
}

const ALL: [&str; 16] = [
    "interpn_linear_regular_f64", "interpn_linear_regular_f32", "interpn_linear_rectilinear_f64", "interpn_linear_rectilinear_f32",
    "interpn_nearest_regular_f64", "interpn_nearest_regular_f32", "interpn_nearest_rectilinear_f64", "interpn_nearest_rectilinear_f32",
    "interpn_cubic_regular_f64", "interpn_cubic_regular_f32", "interpn_cubic_rectilinear_f64", "interpn_cubic_rectilinear_f32",
    "check_bounds_regular_f64", "check_bounds_regular_f32", "check_bounds_rectilinear_f64", "check_bounds_rectilinear_f32",
];
const IDS: [u64; 16] = {
    let mut a = [0; 16];
    let mut i = 0;
    while i < 16 {
        a[i] = pyo3::id_of(ALL[i]);
        i += 1;
    }
    a
};
/// The module exports every function under its name, exactly once (for any of the 16).
pub fn module<T: Fl, S: Src, const NG: usize, const NO: usize>(s: &mut S, _: u8, _: bool, f: Fun) {
    assert!(f.named, "the module has the name of the package's extension");
    let m = pyo3::Bound::wrap(pyo3::types::PyModule::empty());
    let r = crate::python::__py_module::init(&m);
    assert!(r.is_ok(), "the module can be initialised");
    let k = s.upto(15);
    let mut n = 0;
    for i in 0..m.0.count.get() {
        if m.0.names.borrow()[i] == IDS[k] {
            n += 1;
        }
    }
    assert!(n == 1, "every function is registered, once");
    s.cover(true, "the module is complete");
}
