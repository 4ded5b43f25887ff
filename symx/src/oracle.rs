//! Independent reference semantics, written from the documentation, generic over the scalar.
use crate::api::{Grid, Method};
use crate::ctx::Num;
use num_traits::Float;

pub fn int<T: Float>(i: i64) -> T {
    T::from(i).unwrap()
}

/// Cell i with g[i] <= x <= g[i+1], clamped to the edge cells outside. `up`: which cell a grid point belongs to
/// (the formulas agree there; following the usual convention of the grid kind just avoids extra paths).
pub fn cell<T: Num>(g: &[T], x: T, up: bool) -> usize {
    let (mut lo, mut hi) = (0usize, g.len() - 1);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if if up { x >= g[mid] } else { x > g[mid] } {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo
}
pub fn axis<T: Num>(grid: &Grid<T>, a: usize) -> Vec<T> {
    let n = grid.dims()[a];
    (0..n).map(|i| grid.at(a, i)).collect()
}

/// Weights (index, weight) of the piecewise linear interpolant on one axis.
pub fn linear_weights<T: Num>(g: &[T], x: T, up: bool) -> Vec<(usize, T)> {
    let i = cell(g, x, up);
    let t = (x - g[i]) / (g[i + 1] - g[i]);
    vec![(i, T::one() - t), (i + 1, t)]
}

/// Weights of the documented cubic interpolant on one axis.
pub fn cubic_weights<T: Num>(g: &[T], x: T, linearize: bool, up: bool) -> Vec<(usize, T)> {
    let n = g.len();
    let i = cell(g, x, up);
    let two: T = int(2);
    let three: T = int(3);
    // slope at interior point j as weights on j-1, j, j+1: distance-weighted central difference
    let slope = |j: usize| -> [T; 3] {
        let hl = g[j] - g[j - 1];
        let hr = g[j + 1] - g[j];
        let s = hl + hr;
        // (hr * (y_j - y_{j-1})/hl + hl * (y_{j+1} - y_j)/hr) / (hl + hr)
        let a = hr / (hl * s);
        let b = hl / (hr * s);
        [-a, a - b, b]
    };
    if i == 0 {
        // quadratic through points 0 and 1 with the slope of point 1
        let h = g[1] - g[0];
        let m = slope(1);
        // q(x) = y1 + m (x - x1) + c (x - x1)^2, with q(x0) = y0  =>  c = (y0 - y1 + m h) / h^2
        let (xx, lin) = if linearize && x < g[0] { (g[0], true) } else { (x, false) };
        let u = xx - g[1];
        let c = |k: usize| -> T {
            let y0 = if k == 0 { T::one() } else { T::zero() };
            let y1 = if k == 1 { T::one() } else { T::zero() };
            (y0 - y1 + m[k] * h) / (h * h)
        };
        (0..3)
            .map(|k| {
                let y1 = if k == 1 { T::one() } else { T::zero() };
                let ck = c(k);
                let q = y1 + m[k] * u + ck * u * u;
                let w = if lin { q + (m[k] + two * ck * u) * (x - g[0]) } else { q };
                (k, w)
            })
            .collect()
    } else if i == n - 2 {
        let h = g[n - 1] - g[n - 2];
        let m = slope(n - 2);
        let (xx, lin) = if linearize && (if up { x >= g[n - 1] } else { x > g[n - 1] }) { (g[n - 1], true) } else { (x, false) };
        let u = xx - g[n - 2];
        (0..3)
            .map(|k| {
                let y1 = if k == 1 { T::one() } else { T::zero() };
                let y2 = if k == 2 { T::one() } else { T::zero() };
                let ck = (y2 - y1 - m[k] * h) / (h * h);
                let q = y1 + m[k] * u + ck * u * u;
                let w = if lin { q + (m[k] + two * ck * u) * (x - g[n - 1]) } else { q };
                (n - 3 + k, w)
            })
            .collect()
    } else {
        let h = g[i + 1] - g[i];
        let t = (x - g[i]) / h;
        let t2 = t * t;
        let t3 = t2 * t;
        let h00 = two * t3 - three * t2 + T::one();
        let h10 = t3 - two * t2 + t;
        let h01 = three * t2 - two * t3;
        let h11 = t3 - t2;
        let m0 = slope(i);
        let m1 = slope(i + 1);
        let k0 = h * h10;
        let k1 = h * h11;
        vec![
            (i - 1, k0 * m0[0]),
            (i, h00 + k0 * m0[1] + k1 * m1[0]),
            (i + 1, h01 + k0 * m0[2] + k1 * m1[1]),
            (i + 2, k1 * m1[2]),
        ]
    }
}
/// Nearest grid point on one axis; the lower one on an exact tie.
pub fn nearest_index<T: Num>(g: &[T], x: T, up: bool) -> usize {
    let i = cell(g, x, up);
    let two: T = int(2);
    if two * x > g[i] + g[i + 1] { i + 1 } else { i }
}

pub fn weights<T: Num>(m: Method, g: &[T], x: T, up: bool) -> Vec<(usize, T)> {
    match m {
        Method::Linear => linear_weights(g, x, up),
        Method::Cubic(l) => cubic_weights(g, x, l, up),
        Method::Nearest => vec![(nearest_index(g, x, up), T::one())],
    }
}
/// Tensor product of per-axis weights over a C-ordered table.
pub fn tensor<T: Num>(w: &[Vec<(usize, T)>], dims: &[usize], vals: &[T]) -> T {
    fn rec<T: Num>(a: usize, base: usize, w: &[Vec<(usize, T)>], dims: &[usize], vals: &[T]) -> T {
        if a == w.len() {
            return vals[base];
        }
        let mut s = T::zero();
        for (i, k) in &w[a] {
            s = s + *k * rec(a + 1, base * dims[a] + *i, w, dims, vals);
        }
        s
    }
    rec(0, 0, w, dims, vals)
}
pub fn reference<T: Num>(m: Method, grid: &Grid<T>, vals: &[T], x: &[T]) -> T {
    let w: Vec<_> = (0..grid.ndims()).map(|a| weights(m, &axis(grid, a), x[a], grid.is_reg())).collect();
    tensor(&w, &grid.dims(), vals)
}
