//! Uniform access to every public entry point of interpn.
use crate::ctx::{Ctx, Num};
use interpn::multicubic::{self, *};
use interpn::multilinear::{self, *};
use interpn::nearest::{self, *};
use interpn::one_dim::hold::{Left1D, Nearest1D, Right1D};
use interpn::one_dim::linear::{Linear1D, LinearHoldLast1D};
use interpn::one_dim::{Grid1D, Interp1D, RectilinearGrid1D, RegularGrid1D};
use num_traits::Float;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Method {
    Linear,
    Cubic(bool),
    Nearest,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Imp {
    /// fixed-dimension struct, `interp`
    Flat,
    /// fixed-dimension struct, `interp_one` for every point
    FlatOne,
    /// recursive struct with MAXDIMS = ndims + extra, `interp`
    Rec(usize),
    RecOne(usize),
    /// `interpn` of the module / of the recursive module
    Conv,
    ConvRec,
    Alloc,
    AllocRec,
}
#[derive(Clone, Debug)]
pub enum Grid<T> {
    Reg { dims: Vec<usize>, starts: Vec<T>, steps: Vec<T> },
    Rect(Vec<Vec<T>>),
}
impl<T: Float> Grid<T> {
    pub fn ndims(&self) -> usize {
        match self {
            Grid::Reg { dims, .. } => dims.len(),
            Grid::Rect(g) => g.len(),
        }
    }
    pub fn dims(&self) -> Vec<usize> {
        match self {
            Grid::Reg { dims, .. } => dims.clone(),
            Grid::Rect(g) => g.iter().map(|x| x.len()).collect(),
        }
    }
    pub fn is_reg(&self) -> bool {
        matches!(self, Grid::Reg { .. })
    }
    /// coordinate i of an axis
    pub fn at(&self, axis: usize, i: usize) -> T {
        match self {
            Grid::Reg { starts, steps, .. } => starts[axis] + steps[axis] * T::from(i).unwrap(),
            Grid::Rect(g) => g[axis][i],
        }
    }
}
pub fn max_flat(m: Method) -> usize {
    match m {
        Method::Cubic(_) => 4,
        _ => 6,
    }
}
pub fn max_conv(m: Method) -> usize {
    if m == Method::Nearest { 6 } else { 8 }
}
/// Implementations applicable to a method and dimension count.
pub fn imps(m: Method, n: usize) -> Vec<Imp> {
    let mut v = vec![];
    if n <= max_flat(m) {
        v.push(Imp::Flat);
        v.push(Imp::FlatOne);
    }
    if n <= max_conv(m) {
        v.push(Imp::Conv);
        v.push(Imp::Alloc);
    }
    if m != Method::Nearest {
        v.push(Imp::Rec(0));
        v.push(Imp::RecOne(1));
        v.push(Imp::Rec(3));
        if n <= 8 {
            v.push(Imp::ConvRec);
            v.push(Imp::AllocRec);
        }
    }
    v
}

type R<X> = Result<X, &'static str>;

fn arr<const N: usize, X: Copy>(v: &[X]) -> R<[X; N]> {
    v.try_into().map_err(|_| "harness: length")
}

macro_rules! run_flat {
    ($s:expr, $n:literal, $one:expr, $obs:expr, $out:expr) => {{
        let s = $s?;
        if $one {
            for i in 0..$out.len() {
                let mut p = [<_ as num_traits::Zero>::zero(); $n];
                for j in 0..$n {
                    p[j] = $obs[j][i];
                }
                $out[i] = s.interp_one(p)?;
            }
            Ok(())
        } else {
            let o: [&[T]; $n] = arr($obs)?;
            s.interp(&o, $out)
        }
    }};
}
macro_rules! run_rec {
    ($s:expr, $one:expr, $obs:expr, $out:expr) => {{
        let s = $s?;
        if $one {
            for i in 0..$out.len() {
                let p: Vec<T> = $obs.iter().map(|x| x[i]).collect();
                $out[i] = s.interp_one(&p)?;
            }
            Ok(())
        } else {
            s.interp($obs, $out)
        }
    }};
}
macro_rules! flat_dispatch {
    ($nd:expr, [$($n:literal),*], $mk:ident, $one:expr, $obs:expr, $out:expr) => {
        match $nd {
            $($n => run_flat!($mk!($n), $n, $one, $obs, $out),)*
            _ => Err("harness: dimension count"),
        }
    };
}
macro_rules! rec_dispatch {
    ($nd:expr, [$($n:literal),*], $mk:ident, $one:expr, $obs:expr, $out:expr) => {
        match $nd {
            $($n => run_rec!($mk!($n), $one, $obs, $out),)*
            _ => Err("harness: dimension count"),
        }
    };
}

pub fn eval<T: Float>(m: Method, imp: Imp, grid: &Grid<T>, vals: &[T], obs: &[&[T]], out: &mut [T]) -> R<()> {
    let one = matches!(imp, Imp::FlatOne | Imp::RecOne(_));
    match grid {
        Grid::Reg { dims, starts, steps } => {
            let n = dims.len();
            match (m, imp) {
                (Method::Linear, Imp::Flat | Imp::FlatOne) => {
                    macro_rules! mk { ($n:literal) => { MultilinearRegular::<'_, T, $n>::new(arr(dims)?, arr(starts)?, arr(steps)?, vals) } }
                    flat_dispatch!(n, [1, 2, 3, 4, 5, 6], mk, one, obs, out)
                }
                (Method::Cubic(lin), Imp::Flat | Imp::FlatOne) => {
                    macro_rules! mk { ($n:literal) => { MulticubicRegular::<'_, T, $n>::new(arr(dims)?, arr(starts)?, arr(steps)?, vals, lin) } }
                    flat_dispatch!(n, [1, 2, 3, 4], mk, one, obs, out)
                }
                (Method::Nearest, Imp::Flat | Imp::FlatOne) => {
                    macro_rules! mk { ($n:literal) => { NearestRegular::<'_, T, $n>::new(arr(dims)?, arr(starts)?, arr(steps)?, vals) } }
                    flat_dispatch!(n, [1, 2, 3, 4, 5, 6], mk, one, obs, out)
                }
                (Method::Linear, Imp::Rec(x) | Imp::RecOne(x)) => {
                    macro_rules! mk { ($n:literal) => { multilinear::regular_recursive::MultilinearRegularRecursive::<'_, T, $n>::new(dims, starts, steps, vals) } }
                    rec_dispatch!(n + x, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], mk, one, obs, out)
                }
                (Method::Cubic(lin), Imp::Rec(x) | Imp::RecOne(x)) => {
                    macro_rules! mk { ($n:literal) => { multicubic::regular_recursive::MulticubicRegularRecursive::<'_, T, $n>::new(dims, starts, steps, vals, lin) } }
                    rec_dispatch!(n + x, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], mk, one, obs, out)
                }
                (Method::Linear, Imp::Conv) => multilinear::regular::interpn(dims, starts, steps, vals, obs, out),
                (Method::Linear, Imp::ConvRec) => multilinear::regular_recursive::interpn(dims, starts, steps, vals, obs, out),
                (Method::Linear, Imp::Alloc) => put(multilinear::regular::interpn_alloc(dims, starts, steps, vals, obs), out),
                (Method::Linear, Imp::AllocRec) => put(multilinear::regular_recursive::interpn_alloc(dims, starts, steps, vals, obs), out),
                (Method::Cubic(l), Imp::Conv) => multicubic::regular::interpn(dims, starts, steps, vals, l, obs, out),
                (Method::Cubic(l), Imp::ConvRec) => multicubic::regular_recursive::interpn(dims, starts, steps, vals, l, obs, out),
                (Method::Cubic(l), Imp::Alloc) => put(multicubic::regular::interpn_alloc(dims, starts, steps, vals, l, obs), out),
                (Method::Cubic(l), Imp::AllocRec) => put(multicubic::regular_recursive::interpn_alloc(dims, starts, steps, vals, l, obs), out),
                (Method::Nearest, Imp::Conv) => nearest::regular::interpn(dims, starts, steps, vals, obs, out),
                (Method::Nearest, Imp::Alloc) => put(nearest::regular::interpn_alloc(dims, starts, steps, vals, obs), out),
                (Method::Nearest, _) => Err("harness: no such implementation"),
            }
        }
        Grid::Rect(g) => {
            let n = g.len();
            let gs: Vec<&[T]> = g.iter().map(|x| &x[..]).collect();
            match (m, imp) {
                (Method::Linear, Imp::Flat | Imp::FlatOne) => {
                    macro_rules! mk { ($n:literal) => { MultilinearRectilinear::<'_, T, $n>::new((&gs[..]).try_into().map_err(|_| "harness")?, vals) } }
                    flat_dispatch!(n, [1, 2, 3, 4, 5, 6], mk, one, obs, out)
                }
                (Method::Cubic(lin), Imp::Flat | Imp::FlatOne) => {
                    macro_rules! mk { ($n:literal) => { MulticubicRectilinear::<'_, T, $n>::new((&gs[..]).try_into().map_err(|_| "harness")?, vals, lin) } }
                    flat_dispatch!(n, [1, 2, 3, 4], mk, one, obs, out)
                }
                (Method::Nearest, Imp::Flat | Imp::FlatOne) => {
                    macro_rules! mk { ($n:literal) => { NearestRectilinear::<'_, T, $n>::new((&gs[..]).try_into().map_err(|_| "harness")?, vals) } }
                    flat_dispatch!(n, [1, 2, 3, 4, 5, 6], mk, one, obs, out)
                }
                (Method::Linear, Imp::Rec(x) | Imp::RecOne(x)) => {
                    macro_rules! mk { ($n:literal) => { multilinear::rectilinear_recursive::MultilinearRectilinearRecursive::<'_, T, $n>::new(&gs, vals) } }
                    rec_dispatch!(n + x, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], mk, one, obs, out)
                }
                (Method::Cubic(lin), Imp::Rec(x) | Imp::RecOne(x)) => {
                    macro_rules! mk { ($n:literal) => { multicubic::rectilinear_recursive::MulticubicRectilinearRecursive::<'_, T, $n>::new(&gs, vals, lin) } }
                    rec_dispatch!(n + x, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], mk, one, obs, out)
                }
                (Method::Linear, Imp::Conv) => multilinear::rectilinear::interpn(&gs, vals, obs, out),
                (Method::Linear, Imp::ConvRec) => multilinear::rectilinear_recursive::interpn(&gs, vals, obs, out),
                (Method::Linear, Imp::Alloc) => put(multilinear::rectilinear::interpn_alloc(&gs, vals, obs), out),
                (Method::Linear, Imp::AllocRec) => put(multilinear::rectilinear_recursive::interpn_alloc(&gs, vals, obs), out),
                (Method::Cubic(l), Imp::Conv) => multicubic::rectilinear::interpn(&gs, vals, l, obs, out),
                (Method::Cubic(l), Imp::ConvRec) => multicubic::rectilinear_recursive::interpn(&gs, vals, l, obs, out),
                (Method::Cubic(l), Imp::Alloc) => put(multicubic::rectilinear::interpn_alloc(&gs, vals, l, obs), out),
                (Method::Cubic(l), Imp::AllocRec) => put(multicubic::rectilinear_recursive::interpn_alloc(&gs, vals, l, obs), out),
                (Method::Nearest, Imp::Conv) => nearest::rectilinear::interpn(&gs, vals, obs, out),
                (Method::Nearest, Imp::Alloc) => put(nearest::rectilinear::interpn_alloc(&gs, vals, obs), out),
                (Method::Nearest, _) => Err("harness: no such implementation"),
            }
        }
    }
}
fn put<T: Copy>(r: R<Vec<T>>, out: &mut [T]) -> R<()> {
    let v = r?;
    if v.len() != out.len() {
        return Err("harness: allocated output has the wrong length");
    }
    out.copy_from_slice(&v);
    Ok(())
}
pub fn fname(m: Method, imp: Imp, reg: bool) -> String {
    let g = if reg { "regular" } else { "rectilinear" };
    let gg = if reg { "Regular" } else { "Rectilinear" };
    let (md, st) = match m {
        Method::Linear => ("multilinear", "Multilinear"),
        Method::Cubic(_) => ("multicubic", "Multicubic"),
        Method::Nearest => ("nearest", "Nearest"),
    };
    match imp {
        Imp::Flat => format!("{md}::{g}::{st}{gg}::interp"),
        Imp::FlatOne => format!("{md}::{g}::{st}{gg}::interp_one"),
        Imp::Rec(_) => format!("{md}::{g}_recursive::{st}{gg}Recursive::interp"),
        Imp::RecOne(_) => format!("{md}::{g}_recursive::{st}{gg}Recursive::interp_one"),
        Imp::Conv => format!("{md}::{g}::interpn"),
        Imp::ConvRec => format!("{md}::{g}_recursive::interpn"),
        Imp::Alloc => format!("{md}::{g}::interpn_alloc"),
        Imp::AllocRec => format!("{md}::{g}_recursive::interpn_alloc"),
    }
}
/// One point. An `Err` from the code under test fails the harness.
pub fn eval1<T: Num>(cx: &mut Ctx, m: Method, imp: Imp, grid: &Grid<T>, vals: &[T], x: &[T]) -> T {
    cx.funcs.insert(fname(m, imp, grid.is_reg()));
    let o: Vec<[T; 1]> = x.iter().map(|v| [*v]).collect();
    let obs: Vec<&[T]> = o.iter().map(|v| &v[..]).collect();
    let mut out = [T::nan()];
    let r = eval(m, imp, grid, vals, &obs, &mut out);
    cx.check(&format!("{} returns Ok", fname(m, imp, grid.is_reg())), r.is_ok());
    out[0]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum One {
    Left,
    Right,
    Nearest,
    Linear,
    Hold,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OneHow {
    EvalOne,
    Eval,
    EvalAlloc,
}
fn one_run<'a, T: Float, G: Grid1D<'a, T>, I: Interp1D<'a, T, G>>(i: &I, how: OneHow, obs: &[T], out: &mut [T]) -> R<()> {
    match how {
        OneHow::EvalOne => {
            for k in 0..obs.len() {
                out[k] = i.eval_one(obs[k])?;
            }
            Ok(())
        }
        OneHow::Eval => i.eval(obs, out),
        OneHow::EvalAlloc => put(i.eval_alloc(obs), out),
    }
}
pub fn one_eval<T: Float>(k: One, how: OneHow, grid: &Grid<T>, vals: &[T], obs: &[T], out: &mut [T]) -> R<()> {
    macro_rules! go {
        ($g:expr) => {{
            let g = $g;
            match k {
                One::Left => one_run(&Left1D::new(g), how, obs, out),
                One::Right => one_run(&Right1D::new(g), how, obs, out),
                One::Nearest => one_run(&Nearest1D::new(g), how, obs, out),
                One::Linear => one_run(&Linear1D::new(g), how, obs, out),
                One::Hold => one_run(&LinearHoldLast1D::new(g), how, obs, out),
            }
        }};
    }
    match grid {
        Grid::Reg { starts, steps, .. } => go!(RegularGrid1D::new(starts[0], steps[0], vals)?),
        Grid::Rect(g) => go!(RectilinearGrid1D::new(&g[0], vals)?),
    }
}
pub fn one_name(k: One, how: OneHow, reg: bool) -> String {
    format!("one_dim::{k:?}1D::{how:?} on {}Grid1D", if reg { "Regular" } else { "Rectilinear" })
}
pub fn one1<T: Num>(cx: &mut Ctx, k: One, how: OneHow, grid: &Grid<T>, vals: &[T], x: T) -> T {
    cx.funcs.insert(one_name(k, how, grid.is_reg()));
    let mut out = [T::nan()];
    let r = one_eval(k, how, grid, vals, &[x], &mut out);
    cx.check(&format!("{} returns Ok", one_name(k, how, grid.is_reg())), r.is_ok());
    out[0]
}
