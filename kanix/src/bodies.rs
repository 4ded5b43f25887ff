//! Harness bodies: generic over the scalar type and the source of choices, so
//! that the same code is model checked (abstract or bit-precise scalars) and
//! replayed on real floats.
use crate::src::{Scal, Src};
use interpn::multicubic::{rectilinear_recursive as ccr, regular_recursive as crr};
use interpn::multilinear::{rectilinear_recursive as lcr, regular_recursive as lrr};
use interpn::multicubic::{MulticubicRectilinearRecursive, MulticubicRegularRecursive};
use interpn::multilinear::{MultilinearRectilinearRecursive, MultilinearRegularRecursive};
use interpn::one_dim::{Grid1D, Interp1D};
use interpn::*;

/// Axis lengths: any in min..=max (FIX == 0), or all equal to FIX.
fn pick_dims<T: Scal, S: Src<T>, const N: usize>(s: &mut S, min: usize, max: usize, fix: bool) -> ([usize; N], usize) {
    let mut dims = [min; N];
    let mut n = 1;
    for i in 0..N {
        if !fix {
            let d = s.upto(max);
            s.assume(d >= min);
            dims[i] = d;
        } else if i % 2 == 1 {
            dims[i] = max;
        }
        n *= dims[i];
    }
    (dims, n)
}
fn pick_point<T: Scal, S: Src<T>, const N: usize>(s: &mut S) -> ([T; N], bool) {
    let mut x = [T::zero(); N];
    let mut bad = false;
    for i in 0..N {
        x[i] = s.scalar(6);
        bad |= x[i].class() >= 3;
    }
    (x, bad)
}

macro_rules! c15_reg {
    ($name:ident, $ty:ident, $slice:tt $(, $lin:ident)?) => {
        pub fn $name<T: Scal, S: Src<T>, const N: usize, const M: usize>(s: &mut S, min: usize, max: usize, fix: bool) {
            let (dims, n) = pick_dims::<T, S, N>(s, min, max, fix);
            let mut starts = [T::zero(); N];
            let mut steps = [T::one(); N];
            for i in 0..N {
                starts[i] = s.scalar(6);
                c15_reg!(@step $slice s, steps[i], fix);
            }
            $(let $lin = s.flag();)?
            let vals: [T; M] = s.table();
            let Ok(it) = c15_reg!(@new $slice $ty N T, dims, starts, steps, &vals[..n] $(, $lin)?) else { return };
            let (x, bad) = pick_point::<T, S, N>(s);
            let r = c15_reg!(@eval $slice it, x);
            s.cover(r.is_ok(), "a value is returned");
            s.cover(r.is_err(), "an error is returned");
            if bad {
                assert!(r.is_err(), "a regular-grid method accepted an observation that is NaN or infinite");
            }
        }
    };
    (@new flat $ty:ident $n:ident $t:ident, $d:expr, $a:expr, $b:expr, $v:expr $(, $lin:ident)?) => { $ty::<$t, $n>::new($d, $a, $b, $v $(, $lin)?) };
    (@new rec $ty:ident $n:ident $t:ident, $d:expr, $a:expr, $b:expr, $v:expr $(, $lin:ident)?) => { $ty::<$t, $n>::new(&$d, &$a, &$b, $v $(, $lin)?) };
    (@eval flat $i:expr, $x:expr) => { $i.interp_one($x) };
    (@eval rec $i:expr, $x:expr) => { $i.interp_one(&$x) };
    // The recursive types keep the dimension count in a field. With `fix`, everything the constructor
    // checks is a constant, so that the constructor folds to Ok and the count stays a constant.
    (@step flat $s:ident, $x:expr, $fix:ident) => { $x = $s.scalar(6) };
    (@step rec $s:ident, $x:expr, $fix:ident) => { if !$fix { $x = $s.scalar(6) } };
}
c15_reg!(c15_linreg, MultilinearRegular, flat);
c15_reg!(c15_linregrec, MultilinearRegularRecursive, rec);
c15_reg!(c15_cubreg, MulticubicRegular, flat, lin);
c15_reg!(c15_cubregrec, MulticubicRegularRecursive, rec, lin);
c15_reg!(c15_nearreg, NearestRegular, flat);

macro_rules! c15_rect {
    ($name:ident, $ty:ident, $slice:tt, $max:literal $(, $lin:ident)?) => {
        pub fn $name<T: Scal, S: Src<T>, const N: usize, const M: usize>(s: &mut S, min: usize, max: usize, fix: bool) {
            let (dims, n) = pick_dims::<T, S, N>(s, min, max, fix);
            let mut store = [[T::zero(); $max]; N];
            for i in 0..N {
                c15_rect!(@axis $slice s, store[i], max, fix);
            }
            let mut grids: [&[T]; N] = [&[]; N];
            for i in 0..N {
                grids[i] = &store[i][..dims[i]];
            }
            $(let $lin = s.flag();)?
            let vals: [T; M] = s.table();
            let Ok(it) = $ty::<T, N>::new(&grids, &vals[..n] $(, $lin)?) else { return };
            let (x, _) = pick_point::<T, S, N>(s);
            let r = c15_reg!(@eval $slice it, x);
            s.cover(r.is_ok(), "a value is returned");
        }
    };
    (@axis flat $s:ident, $x:expr, $max:ident, $fix:ident) => {
        for j in 0..$max {
            $x[j] = $s.scalar(6);
        }
    };
    (@axis rec $s:ident, $x:expr, $max:ident, $fix:ident) => {
        $x[0] = -T::one();
        $x[1] = T::zero();
        for j in 0..$max {
            if !$fix || j > 1 {
                $x[j] = $s.scalar(6);
            }
        }
    };
}
c15_rect!(c15_linrect, MultilinearRectilinear, flat, 4);
c15_rect!(c15_linrectrec, MultilinearRectilinearRecursive, rec, 4);
c15_rect!(c15_cubrect, MulticubicRectilinear, flat, 6, lin);
c15_rect!(c15_cubrectrec, MulticubicRectilinearRecursive, rec, 6, lin);
c15_rect!(c15_nearrect, NearestRectilinear, flat, 4);

macro_rules! c15_one {
    ($reg:ident, $rect:ident, $ty:ident) => {
        pub fn $reg<T: Scal, S: Src<T>>(s: &mut S) {
            let vals: [T; 5] = s.table();
            let n = s.upto(5);
            let (a, b) = (s.scalar(6), s.scalar(6));
            let Ok(g) = RegularGrid1D::new(a, b, &vals[..n]) else { return };
            let x = s.scalar(6);
            let r = $ty::new(g).eval_one(x);
            s.cover(r.is_ok(), "a value is returned");
            s.cover(r.is_err(), "an error is returned");
            if x.class() >= 3 {
                assert!(r.is_err(), "a regular-grid method accepted an observation that is NaN or infinite");
            }
            let i = g.index(x);
            if let Ok((i, _)) = i {
                assert!(i + 1 < n, "index() outside the grid");
            }
        }
        pub fn $rect<T: Scal, S: Src<T>>(s: &mut S) {
            let vals: [T; 5] = s.table();
            let n = s.upto(5);
            let mut grid = [T::zero(); 5];
            for i in 0..5 {
                grid[i] = s.scalar(6);
            }
            let Ok(g) = RectilinearGrid1D::new(&grid[..n], &vals[..n]) else { return };
            let x = s.scalar(6);
            let r = $ty::new(g).eval_one(x);
            s.cover(r.is_ok(), "a value is returned");
            let i = g.index(x);
            if let Ok((i, _)) = i {
                assert!(i + 1 < n, "index() outside the grid");
            }
        }
    };
}
c15_one!(c15_one_linear_reg, c15_one_linear_rect, Linear1D);
c15_one!(c15_one_hold_reg, c15_one_hold_rect, LinearHoldLast1D);
c15_one!(c15_one_left_reg, c15_one_left_rect, Left1D);
c15_one!(c15_one_right_reg, c15_one_right_rect, Right1D);
c15_one!(c15_one_near_reg, c15_one_near_rect, Nearest1D);

// ---------------------------------------------------------------- C14

/// product of the axis lengths, or None when it exceeds m
fn prod(dims: &[usize], m: usize) -> Option<usize> {
    let mut p = 1;
    for &d in dims {
        if d == 0 {
            return Some(0);
        }
    }
    for &d in dims {
        if d > m {
            return None;
        }
        p *= d;
        if p > m {
            return None;
        }
    }
    Some(p)
}

macro_rules! c14_new_reg_flat {
    ($name:ident, $ty:ident $(, $lin:ident)?) => {
        pub fn $name<T: Scal, S: Src<T>, const N: usize, const M: usize>(s: &mut S, min: usize) {
            let vals: [T; M] = s.table();
            let len = s.upto(M);
            let mut dims = [0; N];
            let mut starts = [T::zero(); N];
            let mut steps = [T::zero(); N];
            let mut ok = true;
            for i in 0..N {
                dims[i] = s.any_usize();
                starts[i] = s.scalar(6);
                steps[i] = s.scalar(6);
                ok &= dims[i] >= min && (steps[i].class() == 1 || steps[i].class() == 3);
            }
            ok &= prod(&dims, M) == Some(len);
            $(let $lin = s.flag();)?
            let r = $ty::<T, N>::new(dims, starts, steps, &vals[..len] $(, $lin)?).is_ok();
            s.cover(r, "accepted");
            s.cover(!r, "rejected");
            assert!(!r || ok, "malformed arguments accepted");
            assert!(r || !ok, "well-formed arguments rejected");
        }
    };
}
c14_new_reg_flat!(c14_new_linreg, MultilinearRegular);
c14_new_reg_flat!(c14_new_cubreg, MulticubicRegular, lin);
c14_new_reg_flat!(c14_new_nearreg, NearestRegular);

/// recursive constructors: every slice has its own length, MAXDIMS may be exceeded
macro_rules! c14_new_reg_rec {
    ($name:ident, $ty:ident $(, $lin:ident)?) => {
        pub fn $name<T: Scal, S: Src<T>, const K: usize, const D: usize, const M: usize>(s: &mut S, min: usize) {
            let vals: [T; M] = s.table();
            let len = s.upto(M);
            let mut dims = [0; D];
            let mut starts = [T::zero(); D];
            let mut steps = [T::zero(); D];
            for i in 0..D {
                dims[i] = s.any_usize();
                starts[i] = s.scalar(6);
                steps[i] = s.scalar(6);
            }
            let (nd, na, nb) = (s.upto(D), s.upto(D), s.upto(D));
            let mut ok = nd == na && nd == nb && nd >= 1 && nd <= K && prod(&dims[..nd], M) == Some(len);
            for i in 0..D {
                if i < nd {
                    ok &= dims[i] >= min;
                }
                if i < nb {
                    ok &= steps[i].class() == 1 || steps[i].class() == 3;
                }
            }
            $(let $lin = s.flag();)?
            let r = $ty::<T, K>::new(&dims[..nd], &starts[..na], &steps[..nb], &vals[..len] $(, $lin)?).is_ok();
            s.cover(r, "accepted");
            s.cover(!r, "rejected");
            assert!(!r || ok, "malformed arguments accepted");
            assert!(r || !ok, "well-formed arguments rejected");
        }
    };
}
c14_new_reg_rec!(c14_new_linregrec, MultilinearRegularRecursive);
c14_new_reg_rec!(c14_new_cubregrec, MulticubicRegularRecursive, lin);

macro_rules! c14_new_rect {
    ($name:ident, $ty:ident, $rec:tt $(, $lin:ident)?) => {
        /// K: MAXDIMS or the fixed dimension count; D: most grids passed; L: longest grid; count: grids passed
        pub fn $name<T: Scal, S: Src<T>, const K: usize, const D: usize, const L: usize, const M: usize>(s: &mut S, min: usize, count: usize) {
            let vals: [T; M] = s.table();
            let len = s.upto(M);
            let mut store = [[T::zero(); L]; D];
            let mut dims = [0; D];
            for i in 0..D {
                store[i][0] = s.scalar(6);
                store[i][1] = s.scalar(6);
                dims[i] = s.upto(L);
            }
            let nd = if $rec { count } else { D };
            let mut ok = nd >= 1 && nd <= K && prod(&dims[..nd], M) == Some(len);
            let mut grids: [&[T]; D] = [&[]; D];
            for i in 0..D {
                grids[i] = &store[i][..dims[i]];
                if i < nd {
                    ok &= dims[i] >= min && store[i][1] > store[i][0];
                }
            }
            $(let $lin = s.flag();)?
            let r = c14_new_rect!(@new $rec $ty K D T, grids, nd, &vals[..len] $(, $lin)?).is_ok();
            s.cover(r, "accepted");
            s.cover(!r, "rejected");
            assert!(!r || ok, "malformed arguments accepted");
            assert!(r || !ok, "well-formed arguments rejected");
        }
    };
    (@new false $ty:ident $k:ident $d:ident $t:ident, $g:expr, $nd:expr, $v:expr $(, $lin:ident)?) => { $ty::<$t, $d>::new(&$g, $v $(, $lin)?) };
    (@new true $ty:ident $k:ident $d:ident $t:ident, $g:expr, $nd:expr, $v:expr $(, $lin:ident)?) => { $ty::<$t, $k>::new(&$g[..$nd], $v $(, $lin)?) };
}
c14_new_rect!(c14_new_linrect, MultilinearRectilinear, false);
c14_new_rect!(c14_new_cubrect, MulticubicRectilinear, false, lin);
c14_new_rect!(c14_new_nearrect, NearestRectilinear, false);
c14_new_rect!(c14_new_linrectrec, MultilinearRectilinearRecursive, true);
c14_new_rect!(c14_new_cubrectrec, MulticubicRectilinearRecursive, true, lin);

pub fn c14_one_reg<T: Scal, S: Src<T>>(s: &mut S) {
    let vals: [T; 4] = s.table();
    let n = s.upto(4);
    let (a, b) = (s.scalar(6), s.scalar(6));
    let ok = n >= 2 && (b.class() == 1 || b.class() == 3);
    let r = RegularGrid1D::new(a, b, &vals[..n]).is_ok();
    s.cover(r, "accepted");
    s.cover(!r, "rejected");
    assert!(!r || ok, "malformed arguments accepted");
    assert!(r || !ok, "well-formed arguments rejected");
}
pub fn c14_one_rect<T: Scal, S: Src<T>>(s: &mut S) {
    let vals: [T; 4] = s.table();
    let (n, m) = (s.upto(4), s.upto(4));
    let mut g = [T::zero(); 4];
    g[0] = s.scalar(6);
    g[1] = s.scalar(6);
    let ok = n >= 2 && n == m && g[1] > g[0];
    let r = RectilinearGrid1D::new(&g[..n], &vals[..m]).is_ok();
    s.cover(r, "accepted");
    s.cover(!r, "rejected");
    assert!(!r || ok, "malformed arguments accepted");
    assert!(r || !ok, "well-formed arguments rejected");
}
/// 1-D batches: observation and output lengths must agree
pub fn c14_one_eval<T: Scal, S: Src<T>, const KIND: usize>(s: &mut S, reg: bool) {
    let vals: [T; 3] = s.table();
    let obs = [T::zero(); 3];
    let mut out = [T::zero(); 3];
    let (n, m) = (s.upto(3), s.upto(3));
    let grid = [-T::one(), T::zero(), T::one()];
    let kind = KIND;
    let r = if reg {
        let g = RegularGrid1D::new(T::zero(), T::one(), &vals).unwrap();
        eval_kind(kind, g, &obs[..n], &mut out[..m])
    } else {
        let g = RectilinearGrid1D::new(&grid, &vals).unwrap();
        eval_kind(kind, g, &obs[..n], &mut out[..m])
    };
    s.cover(r, "accepted");
    s.cover(!r, "rejected");
    assert!(r == (n == m), "1-D eval: wrong verdict on the lengths");
}
fn eval_kind<'a, T: Scal, G: Grid1D<'a, T>>(kind: usize, g: G, obs: &[T], out: &mut [T]) -> bool {
    match kind {
        0 => Linear1D::new(g).eval(obs, out).is_ok(),
        1 => LinearHoldLast1D::new(g).eval(obs, out).is_ok(),
        2 => Left1D::new(g).eval(obs, out).is_ok(),
        3 => Right1D::new(g).eval(obs, out).is_ok(),
        _ => Nearest1D::new(g).eval(obs, out).is_ok(),
    }
}

/// Batch evaluation of a well-formed interpolator: accepted exactly when every
/// observation array has the length of the output (and, for the recursive
/// types, their number is the dimension count).
macro_rules! c14_interp {
    ($name:ident, $kind:tt, $ty:ident, $slice:tt, $side:literal $(, $lin:ident)?) => {
        pub fn $name<T: Scal, S: Src<T>, const N: usize, const X: usize, const M: usize>(s: &mut S, m: usize, k: usize) {
            let vals: [T; M] = s.table();
            let side = $side;
            $(let $lin = false;)?
            let dims = [side; N];
            let starts = [T::zero(); N];
            let steps = [T::one(); N];
            let axis = [-T::one(), T::zero(), T::one(), T::one()];
            let grids = [&axis[..side]; N];
            let it = c14_interp!(@new $kind $slice $ty N T, dims, starts, steps, grids, &vals $(, $lin)?).unwrap();
            let obs = [T::zero(); 2];
            let mut lens = [0; X];
            let mut x: [&[T]; X] = [&[]; X];
            let mut ok = k == N;
            for i in 0..X {
                lens[i] = s.upto(2);
                x[i] = &obs[..lens[i]];
                if i < k {
                    ok &= lens[i] == m;
                }
            }
            let mut out = [T::zero(); 2];
            let r = c14_interp!(@eval $slice it, x, k, &mut out[..m], N).is_ok();
            s.cover(r, "accepted");
            s.cover(!r, "rejected");
            assert!(!r || ok, "malformed lengths accepted");
            assert!(r || !ok, "well-formed lengths rejected");
            c14_interp!(@one $slice it, obs, k, N, X, T);
        }
    };
    (@new reg flat $ty:ident $n:ident $t:ident, $d:expr, $a:expr, $b:expr, $g:expr, $v:expr $(, $lin:ident)?) => { $ty::<$t, $n>::new($d, $a, $b, $v $(, $lin)?) };
    (@new reg rec $ty:ident $n:ident $t:ident, $d:expr, $a:expr, $b:expr, $g:expr, $v:expr $(, $lin:ident)?) => { $ty::<$t, $n>::new(&$d, &$a, &$b, $v $(, $lin)?) };
    (@new rect $s:tt $ty:ident $n:ident $t:ident, $d:expr, $a:expr, $b:expr, $g:expr, $v:expr $(, $lin:ident)?) => { $ty::<$t, $n>::new(&$g, $v $(, $lin)?) };
    (@eval flat $i:expr, $x:expr, $k:expr, $o:expr, $n:ident) => {{ let y: &[&[T]; $n] = $x[..$n].try_into().unwrap(); $i.interp(y, $o) }};
    (@eval rec $i:expr, $x:expr, $k:expr, $o:expr, $n:ident) => { $i.interp(&$x[..$k], $o) };
    (@one flat $i:expr, $x:expr, $k:expr, $n:ident, $xx:ident, $t:ident) => {};
    (@one rec $i:expr, $x:expr, $k:expr, $n:ident, $xx:ident, $t:ident) => {{
        let p = [$t::zero(); $xx];
        assert!($i.interp_one(&p[..$k]).is_ok() == ($k == $n), "interp_one: wrong verdict on the number of coordinates");
    }};
}
c14_interp!(c14_interp_linreg, reg, MultilinearRegular, flat, 2);
c14_interp!(c14_interp_linrect, rect, MultilinearRectilinear, flat, 2);
c14_interp!(c14_interp_cubreg, reg, MulticubicRegular, flat, 4, lin);
c14_interp!(c14_interp_cubrect, rect, MulticubicRectilinear, flat, 4, lin);
c14_interp!(c14_interp_nearreg, reg, NearestRegular, flat, 2);
c14_interp!(c14_interp_nearrect, rect, NearestRectilinear, flat, 2);
c14_interp!(c14_interp_linregrec, reg, MultilinearRegularRecursive, rec, 2);
c14_interp!(c14_interp_linrectrec, rect, MultilinearRectilinearRecursive, rec, 2);
c14_interp!(c14_interp_cubregrec, reg, MulticubicRegularRecursive, rec, 4, lin);
c14_interp!(c14_interp_cubrectrec, rect, MulticubicRectilinearRecursive, rec, 4, lin);

/// Convenience functions: D arrays of dimensions, any number of starts, steps and
/// observation arrays, any lengths.  `nobs` bounds the output length (0 for the
/// dimension counts where evaluating even one point is out of reach).
macro_rules! c14_conv_reg {
    ($name:ident, $f:path, $min:literal, $maxd:literal $(, $lin:ident)?) => {
        pub fn $name<T: Scal, S: Src<T>, const D: usize, const E: usize, const M: usize>(s: &mut S, nobs: usize) {
            let vals: [T; M] = s.table();
            let shapes = nobs == 0;
            let mut dims = [$min; D];
            let mut n = 1;
            for i in 0..D {
                if shapes && (i < 2 || i + 1 == D) {
                    let d = s.upto($min);
                    s.assume(d + 1 >= $min);
                    dims[i] = d;
                }
                n *= dims[i];
            }
            let starts = [T::zero(); E];
            let mut steps = [T::one(); E];
            let mut len = n;
            let mut w = E;
            if shapes {
                len = s.upto(M);
                w = s.upto(E - 1);
                steps[w] = s.scalar(6);
            }
            let (mut na, mut nb, mut no) = (D, D, D);
            if shapes {
                (na, nb, no) = (s.upto(E), s.upto(E), s.upto(E));
            }
            // the shapes are varied with an empty output, the batches with fixed shapes: that
            // way the evaluation itself folds to constants
            let m = nobs;
            let obs = [T::zero(); 2];
            let mut x: [&[T]; E] = [&[]; E];
            let mut ok = na == D && nb == D && no == D && D >= 1 && D <= $maxd && n == len;
            if w < nb {
                ok &= steps[w].class() == 1 || steps[w].class() == 3;
            }
            // a wrong length is tried even where no point can be evaluated
            let longest = nobs + 1;
            for i in 0..E {
                let l = s.upto(longest);
                x[i] = &obs[..l];
                if i < no {
                    ok &= l == m;
                }
            }
            for i in 0..D {
                ok &= dims[i] >= $min;
            }
            let mut out = [T::zero(); 2];
            $(let $lin = shapes && s.flag();)?
            let r = $f(&dims, &starts[..na], &steps[..nb], &vals[..len] $(, $lin)?, &x[..no], &mut out[..m]).is_ok();
            s.cover(r, "accepted");
            s.cover(!r, "rejected");
            assert!(!r || ok, "malformed arguments accepted");
            assert!(r || !ok, "well-formed arguments rejected");
        }
    };
}
c14_conv_reg!(c14_conv_linreg, multilinear::regular::interpn, 2, 8);
c14_conv_reg!(c14_conv_linregrec, lrr::interpn, 2, 8);
c14_conv_reg!(c14_conv_cubreg, multicubic::regular::interpn, 4, 8, lin);
c14_conv_reg!(c14_conv_cubregrec, crr::interpn, 4, 8, lin);
c14_conv_reg!(c14_conv_nearreg, nearest::regular::interpn, 2, 6);

macro_rules! c14_conv_rect {
    ($name:ident, $f:path, $min:literal, $maxd:literal $(, $lin:ident)?) => {
        pub fn $name<T: Scal, S: Src<T>, const D: usize, const E: usize, const M: usize>(s: &mut S, nobs: usize) {
            let vals: [T; M] = s.table();
            let shapes = nobs == 0;
            let mut axis = [-T::one(), T::zero(), T::one(), T::one(), T::one(), T::one(), T::one(), T::one()];
            if shapes {
                axis[0] = s.scalar(6);
            }
            let mut ok = D >= 1 && D <= $maxd;
            let mut grids: [&[T]; D] = [&[]; D];
            let mut n = 1;
            for i in 0..D {
                let mut d = $min;
                if shapes && (i < 2 || i + 1 == D) {
                    d = s.upto($min);
                    s.assume(d + 1 >= $min);
                }
                grids[i] = &axis[..d];
                n *= d;
                ok &= d >= $min && axis[1] > axis[0];
            }
            let mut len = n;
            if shapes {
                len = s.upto(M);
            }
            let mut no = D;
            if shapes {
                no = s.upto(E);
            }
            let m = nobs;
            let obs = [T::zero(); 2];
            let mut x: [&[T]; E] = [&[]; E];
            ok &= no == D && n == len;
            // a wrong length is tried even where no point can be evaluated
            let longest = nobs + 1;
            for i in 0..E {
                let l = s.upto(longest);
                x[i] = &obs[..l];
                if i < no {
                    ok &= l == m;
                }
            }
            let mut out = [T::zero(); 2];
            $(let $lin = shapes && s.flag();)?
            let r = $f(&grids, &vals[..len] $(, $lin)?, &x[..no], &mut out[..m]).is_ok();
            s.cover(r, "accepted");
            s.cover(!r, "rejected");
            assert!(!r || ok, "malformed arguments accepted");
            assert!(r || !ok, "well-formed arguments rejected");
        }
    };
}
c14_conv_rect!(c14_conv_linrect, multilinear::rectilinear::interpn, 2, 8);
c14_conv_rect!(c14_conv_linrectrec, lcr::interpn, 2, 8);
c14_conv_rect!(c14_conv_cubrect, multicubic::rectilinear::interpn, 4, 8, lin);
c14_conv_rect!(c14_conv_cubrectrec, ccr::interpn, 4, 8, lin);
c14_conv_rect!(c14_conv_nearrect, nearest::rectilinear::interpn, 2, 6);

// ---------------------------------------------------------------- bounds checks and allocating variants
macro_rules! c14_bounds_reg {
    ($name:ident, $f:path) => {
        pub fn $name<T: Scal, S: Src<T>, const D: usize>(s: &mut S) {
            let (nd, na, nb, nx, no) = (s.upto(D), s.upto(D), s.upto(D), s.upto(D), s.upto(D));
            let mut dims = [0; D];
            let mut starts = [T::zero(); D];
            let mut steps = [T::zero(); D];
            let obs = [s.scalar(6), s.scalar(6)];
            let mut x: [&[T]; D] = [&[]; D];
            let mut ok = nd == na && nd == nb && nd == nx && nd == no;
            for i in 0..D {
                dims[i] = s.any_usize();
                starts[i] = s.scalar(6);
                steps[i] = s.scalar(6);
                let l = s.upto(2);
                x[i] = &obs[..l];
                if i < nd {
                    ok &= dims[i] > 0;
                }
            }
            let mut out = [false; D];
            let atol = s.scalar(6);
            let r = $f(&dims[..nd], &starts[..na], &steps[..nb], &x[..nx], atol, &mut out[..no]).is_ok();
            s.cover(r, "accepted");
            s.cover(!r, "rejected");
            assert!(!r || ok, "malformed arguments accepted");
            assert!(r || !ok, "well-formed arguments rejected");
        }
    };
}
c14_bounds_reg!(c14_bounds_reg, multilinear::regular::check_bounds);
c14_bounds_reg!(c14_bounds_regrec, lrr::check_bounds);
macro_rules! c14_bounds_rect {
    ($name:ident, $f:path) => {
        pub fn $name<T: Scal, S: Src<T>, const D: usize>(s: &mut S) {
            let (nd, nx, no) = (s.upto(D), s.upto(D), s.upto(D));
            let axis = [s.scalar(6), s.scalar(6)];
            let obs = [s.scalar(6), s.scalar(6)];
            let mut g: [&[T]; D] = [&[]; D];
            let mut x: [&[T]; D] = [&[]; D];
            let mut ok = nd == nx && nd == no;
            for i in 0..D {
                let k = s.upto(2);
                g[i] = &axis[..k];
                let l = s.upto(2);
                x[i] = &obs[..l];
                if i < nd {
                    ok &= k > 0;
                }
            }
            let mut out = [false; D];
            let atol = s.scalar(6);
            let r = $f(&g[..nd], &x[..nx], atol, &mut out[..no]).is_ok();
            s.cover(r, "accepted");
            s.cover(!r, "rejected");
            assert!(!r || ok, "malformed arguments accepted");
            assert!(r || !ok, "well-formed arguments rejected");
        }
    };
}
c14_bounds_rect!(c14_bounds_rect, multilinear::rectilinear::check_bounds);
c14_bounds_rect!(c14_bounds_rectrec, lcr::check_bounds);

/// interpn_alloc: any number of observation arrays (also none) of any lengths; the result has the length of the first
macro_rules! c14_alloc {
    ($name:ident, $f:path, $kind:tt, $min:literal $(, $lin:ident)?) => {
        pub fn $name<T: Scal, S: Src<T>, const D: usize, const E: usize, const M: usize>(s: &mut S) {
            let vals = [T::zero(); M];
            let dims = [$min; D];
            let starts = [T::zero(); D];
            let steps = [T::one(); D];
            let axis = [-T::one(), T::zero(), T::one(), T::one()];
            let grids = [&axis[..$min]; D];
            let no = s.upto(E);
            let obs = [T::zero(); 2];
            let mut x: [&[T]; E] = [&[]; E];
            let mut ok = no == D;
            let mut first = 0;
            for i in 0..E {
                let l = s.upto(2);
                x[i] = &obs[..l];
                if i == 0 {
                    first = l;
                }
                if i < no {
                    ok &= l == first;
                }
            }
            $(let $lin = false;)?
            let r = c14_alloc!(@call $kind $f, dims, starts, steps, grids, vals, &x[..no] $(, $lin)?);
            s.cover(r.is_ok(), "accepted");
            s.cover(r.is_err(), "rejected");
            match r {
                Ok(v) => {
                    assert!(ok, "malformed arguments accepted");
                    assert!(v.len() == first, "one result per observation");
                }
                Err(_) => assert!(!ok, "well-formed arguments rejected"),
            }
        }
    };
    (@call reg $f:path, $d:ident, $a:ident, $b:ident, $g:ident, $v:ident, $x:expr $(, $lin:ident)?) => { $f(&$d, &$a, &$b, &$v $(, $lin)?, $x) };
    (@call rect $f:path, $d:ident, $a:ident, $b:ident, $g:ident, $v:ident, $x:expr $(, $lin:ident)?) => { $f(&$g, &$v $(, $lin)?, $x) };
}
c14_alloc!(c14_alloc_linreg, multilinear::regular::interpn_alloc, reg, 2);
c14_alloc!(c14_alloc_linrect, multilinear::rectilinear::interpn_alloc, rect, 2);
c14_alloc!(c14_alloc_linregrec, lrr::interpn_alloc, reg, 2);
c14_alloc!(c14_alloc_linrectrec, lcr::interpn_alloc, rect, 2);
c14_alloc!(c14_alloc_cubreg, multicubic::regular::interpn_alloc, reg, 4, lin);
c14_alloc!(c14_alloc_cubrect, multicubic::rectilinear::interpn_alloc, rect, 4, lin);
c14_alloc!(c14_alloc_cubregrec, crr::interpn_alloc, reg, 4, lin);
c14_alloc!(c14_alloc_cubrectrec, ccr::interpn_alloc, rect, 4, lin);
c14_alloc!(c14_alloc_nearreg, nearest::regular::interpn_alloc, reg, 2);
c14_alloc!(c14_alloc_nearrect, nearest::rectilinear::interpn_alloc, rect, 2);

// ---------------------------------------------------------------- C25
/// Allocates for one value of its choice: the check must find that.
pub fn alloc_once<T: Scal, S: Src<T>>(s: &mut S) {
    let k = s.upto(7);
    let b = s.flag();
    let mut n = 0;
    if k == 5 && b {
        n = Box::new(k).wrapping_add(1);
        std::hint::black_box(&mut n);
    }
    s.cover(n == 0, "no allocation");
}
