//! The scenarios of every property. A scenario is a harness, generic over the scalar; it is executed symbolically
//! (deciding run) and natively in f64 / f32 (replay of counterexamples).
use crate::api::*;
use crate::ctx::{Ctx, Num};
use crate::drive::{Scen, Scens};
use crate::gens::*;
use crate::oracle;
use symcore::big::Rat;

fn eps_small() -> (Rat, Rat) {
    (pow2(-22), pow2(-20))
}
fn nodes_of(dims: &[usize], flat: usize) -> Vec<usize> {
    let mut k = flat;
    let mut v = vec![0; dims.len()];
    for a in (0..dims.len()).rev() {
        v[a] = k % dims[a];
        k /= dims[a];
    }
    v
}
fn flat_of(dims: &[usize], ix: &[usize]) -> usize {
    ix.iter().zip(dims).fold(0, |s, (i, d)| s * d + i)
}

// ---------------------------------------------------------------- value = documented formula
pub struct Value {
    pub m: Method,
    pub imp: Imp,
    pub spec: Spec,
    pub ts: TS,
    pub xs: Vec<XS>,
}
impl Scen for Value {
    fn name(&self) -> String {
        format!("value {} {:?} {} {} x=({})", mtag(self.m), self.imp, self.spec.tag(), ttag(&self.ts), xtag(&self.xs))
    }
    fn fp(&self) -> bool {
        self.m == Method::Nearest
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let x = self.spec.point(cx, &g, &self.xs, "x");
        let v = self.spec.table::<T>(cx, &self.ts, "v");
        let got = eval1(cx, self.m, self.imp, &g, &v, &x);
        if self.m == Method::Nearest {
            let ix: Vec<usize> = (0..x.len()).map(|a| oracle::nearest_index(&oracle::axis(&g, a), x[a], g.is_reg())).collect();
            cx.check_bits("value is the stored value of the nearest grid point", got, v[flat_of(&self.spec.dims, &ix)]);
        } else {
            let want = oracle::reference(self.m, &g, &v, &x);
            cx.check_eq("value equals the documented formula", got, want, scale(self.m, &self.spec.dims, &self.xs));
        }
    }
}

// ---------------------------------------------------------------- C04 continuity
pub struct Cont {
    pub lin: bool,
    pub imp: Imp,
    pub spec: Spec,
    pub ts: TS,
    pub axis: usize,
    pub node: usize,
    pub xs: Vec<XS>,
}
impl Scen for Cont {
    fn name(&self) -> String {
        format!(
            "continuity {} {:?} {} {} axis {} node {} others=({})",
            mtag(Method::Cubic(self.lin)), self.imp, self.spec.tag(), ttag(&self.ts), self.axis, self.node, xtag(&self.xs)
        )
    }
    fn f64_only(&self) -> bool {
        true
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let m = Method::Cubic(self.lin);
        let (lo, hi) = eps_small();
        let g = self.spec.grid::<T>(cx);
        let mut x = self.spec.point(cx, &g, &self.xs, "x");
        let v = self.spec.table::<T>(cx, &self.ts, "v");
        let e: T = cx.var("e", &lo, &hi);
        let gj = g.at(self.axis, self.node);
        let at = |cx: &mut Ctx, x: &mut Vec<T>, c: T| {
            x[self.axis] = c;
            eval1(cx, m, self.imp, &g, &v, x)
        };
        let mid = at(cx, &mut x, gj);
        let below = at(cx, &mut x, gj - e);
        let above = at(cx, &mut x, gj + e);
        let mut sc = scale(m, &self.spec.dims, &self.xs);
        sc *= 3.0;
        let z = Rat::zero();
        if T::SYM {
            let (b0, a0) = (cx.limit(below, e, &z), cx.limit(above, e, &z));
            cx.check_eq("limit from below equals the value at the grid point", b0, mid, sc);
            cx.check_eq("limit from above equals the value at the grid point", a0, mid, sc);
            let (db, da) = (cx.deriv(below, e), cx.deriv(above, e));
            let (db, da) = (cx.limit(db, e, &z), cx.limit(da, e, &z));
            cx.check_eq("slope from below equals slope from above", T::zero() - db, da, sc * 16.0);
        } else {
            // measured over the small distance e
            let k = 1e-3 / cx.eps;
            cx.check_eq("limit from below equals the value at the grid point", below, mid, sc * k);
            cx.check_eq("limit from above equals the value at the grid point", above, mid, sc * k);
            let two = T::one() + T::one();
            let b2 = at(cx, &mut x, gj - two * e);
            let a2 = at(cx, &mut x, gj + two * e);
            cx.check_eq("slope from below equals slope from above", (below - b2) / e, (a2 - above) / e, sc * k);
        }
    }
}

// ---------------------------------------------------------------- C05 polynomial reproduction
pub struct Poly {
    pub m: Method,
    pub imp: Imp,
    pub spec: Spec,
    /// per-axis degree
    pub deg: usize,
    /// every mixed coefficient symbolic (otherwise a product of per-axis polynomials, symbolic on the listed axes)
    pub full: bool,
    pub sym_axes: Vec<usize>,
    pub xs: Vec<XS>,
}
impl Poly {
    fn field<T: Num>(&self, cx: &mut Ctx) -> impl Fn(&[T]) -> T + use<T> {
        let n = self.spec.dims.len();
        let k = self.deg + 1;
        let full = self.full;
        let two = Rat::int(2);
        let mut c: Vec<T> = vec![];
        if full {
            for i in 0..k.pow(n as u32) {
                c.push(cx.var(&format!("c{i}"), &Rat::int(-2), &two));
            }
        } else {
            let mut r = Rng::new(self.spec.seed ^ 0x5151);
            for a in 0..n {
                for i in 0..k {
                    c.push(if self.sym_axes.contains(&a) {
                        cx.var(&format!("c{a}_{i}"), &Rat::int(-2), &two)
                    } else {
                        T::of_rat(&Rat::frac(*r.pick(&[-4, -3, -2, -1, 1, 2, 3, 4]), 4))
                    });
                }
            }
        }
        move |x: &[T]| {
            if full {
                let mut s = T::zero();
                for (i, c) in c.iter().enumerate() {
                    let mut p = *c;
                    let mut q = i;
                    for a in (0..n).rev() {
                        for _ in 0..q % k {
                            p = p * x[a];
                        }
                        q /= k;
                    }
                    s = s + p;
                }
                s
            } else {
                let mut p = T::one();
                for a in 0..n {
                    let mut s = T::zero();
                    for i in (0..k).rev() {
                        s = s * x[a] + c[a * k + i];
                    }
                    p = s * p;
                }
                p
            }
        }
    }
}
impl Scen for Poly {
    fn name(&self) -> String {
        format!(
            "polynomial of degree {} per axis ({}) {} {:?} {} x=({})",
            self.deg, if self.full { "all coefficients".to_string() } else { format!("axes {:?}", self.sym_axes) },
            mtag(self.m), self.imp, self.spec.tag(), xtag(&self.xs)
        )
    }
    fn f64_only(&self) -> bool {
        true
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let x = self.spec.point(cx, &g, &self.xs, "x");
        let f = self.field::<T>(cx);
        let n = self.spec.dims.len();
        let v: Vec<T> = (0..self.spec.nvals())
            .map(|k| {
                let ix = nodes_of(&self.spec.dims, k);
                let p: Vec<T> = (0..n).map(|a| g.at(a, ix[a])).collect();
                f(&p)
            })
            .collect();
        let got = eval1(cx, self.m, self.imp, &g, &v, &x);
        let want = f(&x);
        let mut sc = scale(self.m, &self.spec.dims, &self.xs);
        for _ in 0..n.min(3) {
            sc *= if self.deg == 2 { 500.0 } else { 25.0 };
        }
        cx.check_eq("field is reproduced", got, want, sc);
    }
}

// ---------------------------------------------------------------- 1-D interpolators
pub struct OneVal {
    pub k: One,
    pub how: OneHow,
    pub spec: Spec,
    pub ts: TS,
    pub xs: XS,
}
impl Scen for OneVal {
    fn name(&self) -> String {
        format!("1-D {:?} {:?} {} {} x=({})", self.k, self.how, self.spec.tag(), ttag(&self.ts), xtag(&[self.xs.clone()]))
    }
    fn fp(&self) -> bool {
        !matches!(self.k, One::Linear)
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let x = self.spec.obs(cx, &g, 0, &self.xs, "x");
        let v = self.spec.table::<T>(cx, &self.ts, "v");
        let got = one1(cx, self.k, self.how, &g, &v, x);
        let ax = oracle::axis(&g, 0);
        let n = ax.len();
        if x < ax[0] && self.k != One::Linear {
            return cx.check_bits("below the grid: the value at the first grid point", got, v[0]);
        }
        if x > ax[n - 1] && self.k != One::Linear {
            return cx.check_bits("above the grid: the value at the last grid point", got, v[n - 1]);
        }
        let up = g.is_reg();
        let i = oracle::cell(&ax, x, up);
        let sc = scale(Method::Linear, &self.spec.dims, &[self.xs.clone()]);
        match self.k {
            One::Left => cx.check_bits("value at the left neighbour", got, v[i]),
            One::Right => cx.check_bits("value at the right neighbour", got, v[i + 1]),
            One::Nearest => {
                let j = oracle::nearest_index(&ax, x, up);
                cx.check_bits("value at the nearer neighbour", got, v[j])
            }
            One::Linear | One::Hold => {
                let w = oracle::linear_weights(&ax, x, up);
                let want = v[w[0].0] * w[0].1 + v[w[1].0] * w[1].1;
                cx.check_eq("straight line through the neighbours", got, want, sc);
                if self.k == One::Hold && T::SYM {
                    // agreement with the extrapolating variant inside the grid
                    let other = one1(cx, One::Linear, self.how, &g, &v, x);
                    cx.check_eq("agrees with the linear interpolator inside", got, other, sc);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C09 stored values at grid points
pub struct Node {
    pub m: Method,
    pub imp: Imp,
    pub spec: Spec,
    pub all: bool,
    pub nodes: Vec<usize>,
}
impl Scen for Node {
    fn name(&self) -> String {
        format!(
            "grid points {} {:?} {} {} {:?}",
            mtag(self.m), self.imp, self.spec.tag(), if self.all { "Vsym" } else { "Vone" },
            if self.nodes.len() > 12 { vec![self.nodes.len()] } else { self.nodes.clone() }
        )
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let ts = if self.all { TS::All } else { TS::Vars(self.nodes.clone()) };
        let v = self.spec.table::<T>(cx, &ts, "v");
        for &k in &self.nodes {
            let ix = nodes_of(&self.spec.dims, k);
            let x: Vec<T> = ix.iter().enumerate().map(|(a, &i)| g.at(a, i)).collect();
            let got = eval1(cx, self.m, self.imp, &g, &v, &x);
            cx.check_eq("grid point returns its stored value", got, v[k], 100.0);
        }
    }
}
pub struct OneNode {
    pub k: One,
    pub how: OneHow,
    pub spec: Spec,
}
impl Scen for OneNode {
    fn name(&self) -> String {
        format!("grid points 1-D {:?} {:?} {}", self.k, self.how, self.spec.tag())
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let v = self.spec.table::<T>(cx, &TS::All, "v");
        for k in 0..v.len() {
            let x = g.at(0, k);
            let got = one1(cx, self.k, self.how, &g, &v, x);
            cx.check_eq("grid point returns its stored value", got, v[k], 100.0);
        }
    }
}

// ---------------------------------------------------------------- C10 locality
pub struct Local {
    pub m: Method,
    pub imp: Imp,
    pub spec: Spec,
    /// poison with infinity instead of NaN
    pub inf: bool,
    /// cell per axis (-1 / n-1: outside), the point is strictly inside it
    pub cells: Vec<i64>,
    /// nearest only: which half of the cell
    pub upper: bool,
}
impl Scen for Local {
    fn name(&self) -> String {
        format!("locality {} {:?} {} {} cells {:?} {}", mtag(self.m), self.imp, self.spec.tag(), if self.inf { "inf" } else { "nan" }, self.cells, self.upper)
    }
    fn fp(&self) -> bool {
        true
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let n = self.spec.dims.len();
        let g = self.spec.grid::<T>(cx);
        let xs: Vec<XS> = self.cells.iter().map(|c| XS::Open(*c)).collect();
        let x = self.spec.point(cx, &g, &xs, "x");
        let mut foot: Vec<(i64, i64)> = vec![];
        for a in 0..n {
            let d = self.spec.dims[a] as i64;
            let c = self.cells[a].clamp(0, d - 2);
            foot.push(match self.m {
                Method::Linear => (c, c + 1),
                Method::Cubic(_) => {
                    if c == 0 {
                        (0, 2)
                    } else if c == d - 2 {
                        (d - 3, d - 1)
                    } else {
                        (c - 1, c + 2)
                    }
                }
                Method::Nearest => {
                    if self.cells[a] < 0 {
                        (0, 0)
                    } else if self.cells[a] >= d - 1 {
                        (d - 1, d - 1)
                    } else {
                        let (p, q) = (g.at(a, c as usize), g.at(a, c as usize + 1));
                        let two: T = oracle::int(2);
                        if self.upper {
                            cx.assume_lt(p + q, two * x[a]);
                            (c + 1, c + 1)
                        } else {
                            cx.assume_lt(two * x[a], p + q);
                            (c, c)
                        }
                    }
                }
            });
        }
        let inside: Vec<bool> = (0..self.spec.nvals())
            .map(|k| nodes_of(&self.spec.dims, k).iter().zip(&foot).all(|(i, f)| f.0 <= *i as i64 && *i as i64 <= f.1))
            .collect();
        let nf = inside.iter().filter(|b| **b).count();
        let ts = if nf <= 64 { TS::Vars((0..inside.len()).filter(|k| inside[*k]).collect()) } else { TS::Conc };
        let v = self.spec.table::<T>(cx, &ts, "v");
        let p: Vec<T> = v
            .iter()
            .zip(&inside)
            .enumerate()
            .map(|(k, (v, i))| if *i { *v } else if !self.inf { T::nan() } else if k % 2 == 0 { T::infinity() } else { T::neg_infinity() })
            .collect();
        let a = eval1(cx, self.m, self.imp, &g, &v, &x);
        let b = eval1(cx, self.m, self.imp, &g, &p, &x);
        cx.check("result does not become NaN or infinite through unrelated entries", b.is_finite());
        cx.check_bits("unrelated entries do not influence the result", b, a);
    }
}

// ---------------------------------------------------------------- C11 regular = rectilinear
pub struct RegRect {
    pub m: Method,
    pub imp: Imp,
    pub spec: Spec, // regular
    pub ts: TS,
    pub xs: Vec<XS>,
}
impl Scen for RegRect {
    fn name(&self) -> String {
        format!("regular=rectilinear {} {:?} {} {} x=({})", mtag(self.m), self.imp, self.spec.tag(), ttag(&self.ts), xtag(&self.xs))
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let r = Grid::Rect((0..g.ndims()).map(|a| oracle::axis(&g, a)).collect());
        let x = self.spec.point(cx, &g, &self.xs, "x");
        let v = self.spec.table::<T>(cx, &self.ts, "v");
        let a = eval1(cx, self.m, self.imp, &g, &v, &x);
        let b = eval1(cx, self.m, self.imp, &r, &v, &x);
        cx.check_eq("regular and rectilinear agree", a, b, scale(self.m, &self.spec.dims, &self.xs));
    }
}
pub struct RegRectOne {
    pub k: One,
    pub how: OneHow,
    pub spec: Spec,
    pub xs: XS,
}
impl Scen for RegRectOne {
    fn name(&self) -> String {
        format!("regular=rectilinear 1-D {:?} {:?} {} x=({})", self.k, self.how, self.spec.tag(), xtag(&[self.xs.clone()]))
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let r = Grid::Rect(vec![oracle::axis(&g, 0)]);
        let x = self.spec.obs(cx, &g, 0, &self.xs, "x");
        let v = self.spec.table::<T>(cx, &TS::All, "v");
        let a = one1(cx, self.k, self.how, &g, &v, x);
        let b = one1(cx, self.k, self.how, &r, &v, x);
        cx.check_eq("regular and rectilinear agree", a, b, scale(Method::Linear, &self.spec.dims, &[self.xs.clone()]));
    }
}

// ---------------------------------------------------------------- C12 implementations agree
pub struct Equiv {
    pub m: Method,
    pub base: Imp,
    pub others: Vec<Imp>,
    pub spec: Spec,
    pub ts: TS,
    pub xs: Vec<XS>,
}
impl Scen for Equiv {
    fn name(&self) -> String {
        format!("agreement {} {:?} vs {:?} {} {} x=({})", mtag(self.m), self.base, self.others, self.spec.tag(), ttag(&self.ts), xtag(&self.xs))
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let x = self.spec.point(cx, &g, &self.xs, "x");
        let v = self.spec.table::<T>(cx, &self.ts, "v");
        let a = eval1(cx, self.m, self.base, &g, &v, &x);
        for o in &self.others {
            let b = eval1(cx, self.m, *o, &g, &v, &x);
            cx.check_eq(&format!("{:?} agrees with {:?}", o, self.base), b, a, scale(self.m, &self.spec.dims, &self.xs));
        }
    }
}
/// dimension counts the convenience functions must refuse or accept
pub struct DimLimit {
    pub m: Method,
    pub imp: Imp,
    pub reg: bool,
    pub n: usize,
    pub ok: bool,
}
impl Scen for DimLimit {
    fn name(&self) -> String {
        format!("dimension limit {} {:?} {} n={}", mtag(self.m), self.imp, if self.reg { "reg" } else { "rect" }, self.n)
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let len = if matches!(self.m, Method::Cubic(_)) { 4 } else { 2 };
        cx.funcs.insert(fname(self.m, self.imp, self.reg));
        let spec = Spec::new(self.reg, &vec![len; self.n], GS::Conc, 7);
        let g = spec.grid::<T>(cx);
        let c: T = cx.vari("c", -4, 4);
        let v = vec![c; spec.nvals()];
        let x: Vec<[T; 1]> = (0..self.n).map(|a| [g.at(a, 0)]).collect();
        let obs: Vec<&[T]> = x.iter().map(|x| &x[..]).collect();
        let mut out = [T::nan()];
        let r = eval(self.m, self.imp, &g, &v, &obs, &mut out);
        cx.check(&format!("{} dimensions: {}", self.n, if self.ok { "accepted" } else { "refused with an error" }), r.is_ok() == self.ok);
        if self.ok && self.n > 0 {
            cx.check_eq("constant table", out[0], c, 8.0);
        }
    }
}

// ---------------------------------------------------------------- C13 batch = point by point
pub struct Batch {
    pub m: Method,
    pub imp: Imp,
    /// what the batch is compared with
    pub single: Imp,
    pub spec: Spec,
    pub ts: TS,
    pub pts: Vec<Vec<XS>>,
}
impl Scen for Batch {
    fn name(&self) -> String {
        let p = if self.pts.len() > 4 { format!("{} points", self.pts.len()) } else { self.pts.iter().map(|p| format!("({})", xtag(p))).collect::<Vec<_>>().join(" ") };
        format!("batch {} {:?} vs {:?} {} {} {}", mtag(self.m), self.imp, self.single, self.spec.tag(), ttag(&self.ts), p)
    }
    fn fp(&self) -> bool {
        true
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let n = self.spec.dims.len();
        let g = self.spec.grid::<T>(cx);
        let pts: Vec<Vec<T>> = self.pts.iter().enumerate().map(|(i, p)| self.spec.point(cx, &g, p, &format!("p{i}_"))).collect();
        let v = self.spec.table::<T>(cx, &self.ts, "v");
        let o: Vec<Vec<T>> = (0..n).map(|a| pts.iter().map(|p| p[a]).collect()).collect();
        let obs: Vec<&[T]> = o.iter().map(|x| &x[..]).collect();
        let mut out = vec![T::nan(); pts.len()];
        cx.funcs.insert(fname(self.m, self.imp, g.is_reg()));
        let r = eval(self.m, self.imp, &g, &v, &obs, &mut out);
        cx.check("batch evaluation succeeds", r.is_ok());
        for (i, p) in pts.iter().enumerate() {
            let one = eval1(cx, self.m, self.single, &g, &v, p);
            cx.check_bits(&format!("slot {i} of the batch equals the single evaluation"), out[i], one);
        }
    }
}
pub struct OneBatch {
    pub k: One,
    pub how: OneHow,
    pub spec: Spec,
    pub pts: Vec<XS>,
}
impl Scen for OneBatch {
    fn name(&self) -> String {
        let p = if self.pts.len() > 8 { format!("{} points", self.pts.len()) } else { xtag(&self.pts) };
        format!("batch 1-D {:?} {:?} {} {}", self.k, self.how, self.spec.tag(), p)
    }
    fn fp(&self) -> bool {
        true
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let pts: Vec<T> = self.pts.iter().enumerate().map(|(i, p)| self.spec.obs(cx, &g, 0, p, &format!("p{i}_"))).collect();
        let v = self.spec.table::<T>(cx, &TS::All, "v");
        let mut out = vec![T::nan(); pts.len()];
        cx.funcs.insert(one_name(self.k, self.how, g.is_reg()));
        let r = one_eval(self.k, self.how, &g, &v, &pts, &mut out);
        cx.check("batch evaluation succeeds", r.is_ok());
        for (i, p) in pts.iter().enumerate() {
            let one = one1(cx, self.k, OneHow::EvalOne, &g, &v, *p);
            cx.check_bits(&format!("slot {i} of the batch equals the single evaluation"), out[i], one);
        }
    }
}
/// a batch of length zero
pub struct Empty {
    pub m: Method,
    pub imp: Imp,
    pub reg: bool,
    pub n: usize,
}
impl Scen for Empty {
    fn name(&self) -> String {
        format!("empty batch {} {:?} {} n={}", mtag(self.m), self.imp, if self.reg { "reg" } else { "rect" }, self.n)
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let len = if matches!(self.m, Method::Cubic(_)) { 4 } else { 2 };
        cx.funcs.insert(fname(self.m, self.imp, self.reg));
        let spec = Spec::new(self.reg, &vec![len; self.n], GS::Conc, 7);
        let g = spec.grid::<T>(cx);
        let c: T = cx.vari("c", -4, 4);
        let v = vec![c; spec.nvals()];
        let e: [T; 0] = [];
        let obs: Vec<&[T]> = (0..self.n).map(|_| &e[..]).collect();
        let mut out: [T; 0] = [];
        let r = eval(self.m, self.imp, &g, &v, &obs, &mut out);
        cx.check("a zero-length batch succeeds", r.is_ok());
    }
}

// ---------------------------------------------------------------- C16 bounds check
pub struct Bounds {
    pub rec: bool,
    pub spec: Spec,
    /// observations per axis
    pub nobs: Vec<usize>,
    pub atol_sym: bool,
    /// axis whose observations are free; the others are fixed
    pub free: Vec<usize>,
}
pub fn check_bounds<T: Num>(rec: bool, g: &Grid<T>, obs: &[&[T]], atol: T, out: &mut [bool]) -> Result<(), &'static str> {
    use interpn::multilinear as ml;
    match g {
        Grid::Reg { dims, starts, steps } => {
            if rec { ml::regular_recursive::check_bounds(dims, starts, steps, obs, atol, out) } else { ml::regular::check_bounds(dims, starts, steps, obs, atol, out) }
        }
        Grid::Rect(v) => {
            let gs: Vec<&[T]> = v.iter().map(|x| &x[..]).collect();
            if rec { ml::rectilinear_recursive::check_bounds(&gs, obs, atol, out) } else { ml::rectilinear::check_bounds(&gs, obs, atol, out) }
        }
    }
}
impl Scen for Bounds {
    fn name(&self) -> String {
        format!("bounds {} {} obs {:?} free {:?}{}", if self.rec { "recursive module" } else { "" }, self.spec.tag(), self.nobs, self.free, if self.atol_sym { " atol" } else { "" })
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let n = self.spec.dims.len();
        let g = self.spec.grid::<T>(cx);
        cx.funcs.insert(format!("multilinear::{}{}::check_bounds", if self.spec.reg { "regular" } else { "rectilinear" }, if self.rec { "_recursive" } else { "" }));
        let atol: T = if self.atol_sym { cx.var("atol", &Rat::frac(1, 1024), &Rat::int(2)) } else { T::of_rat(&Rat::frac(1, 64)) };
        let mut r = Rng::new(self.spec.seed ^ 0x99);
        let mut o: Vec<Vec<T>> = vec![];
        for a in 0..n {
            let d = self.spec.dims[a] as i64;
            o.push(
                (0..self.nobs[a])
                    .map(|i| {
                        let xs = if self.free.contains(&a) {
                            XS::Free
                        } else {
                            // fixed: inside, on an edge, or two eighths of an edge cell outside
                            match r.below(6) {
                                0 => XS::At(-1, 2),
                                1 => XS::At(d - 1, 6),
                                2 => XS::At(0, 0),
                                _ => XS::At(r.range(0, d - 2), 4),
                            }
                        };
                        self.spec.obs(cx, &g, a, &xs, &format!("o{i}_"))
                    })
                    .collect(),
            );
        }
        let obs: Vec<&[T]> = o.iter().map(|x| &x[..]).collect();
        for init in [false, true] {
            let mut out = vec![init; n];
            let res = check_bounds(self.rec, &g, &obs, atol, &mut out);
            cx.check("bounds check succeeds", res.is_ok());
            for a in 0..n {
                let (lo, hi) = (g.at(a, 0), g.at(a, self.spec.dims[a] - 1));
                if out[a] {
                    let mut all_in = true;
                    for x in &o[a] {
                        all_in = all_in && *x >= lo && *x <= hi;
                    }
                    cx.check(&format!("axis {a} is not flagged when every observation is inside"), !all_in);
                } else {
                    for x in &o[a] {
                        let bad = *x > hi + atol || *x < lo - atol;
                        cx.check(&format!("axis {a} is flagged when an observation is outside by more than the tolerance"), !bad);
                    }
                }
            }
        }
    }
}
pub struct BoundsDims {
    pub rec: bool,
    pub reg: bool,
    pub n: usize,
    pub nobs: usize,
    pub nout: usize,
}
impl Scen for BoundsDims {
    fn name(&self) -> String {
        format!("bounds{} dimension mismatch {} grid {} obs {} flags {}", if self.rec { " recursive module" } else { "" }, if self.reg { "reg" } else { "rect" }, self.n, self.nobs, self.nout)
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let spec = Spec::new(self.reg, &vec![3; self.n], GS::Conc, 3);
        let g = spec.grid::<T>(cx);
        let x: T = cx.vari("x", -2, 2);
        let o = [x];
        let obs: Vec<&[T]> = (0..self.nobs).map(|_| &o[..]).collect();
        let mut out = vec![false; self.nout];
        cx.funcs.insert(format!("multilinear::{}{}::check_bounds", if self.reg { "regular" } else { "rectilinear" }, if self.rec { "_recursive" } else { "" }));
        let r = check_bounds(self.rec, &g, &obs, T::of_rat(&Rat::frac(1, 64)), &mut out);
        let ok = self.n == self.nobs && self.n == self.nout;
        cx.check("a dimension-count mismatch is an error, a match is not", r.is_ok() == ok);
    }
}

// ---------------------------------------------------------------- C17 no overshoot of linear interpolation
pub struct Range {
    pub imp: Imp,
    pub spec: Spec,
    /// one-hot corner of the cell (bit a: upper end on axis a); None: every table value symbolic
    pub corner: Option<usize>,
    pub cells: Vec<i64>,
}
impl Scen for Range {
    fn name(&self) -> String {
        format!("range {:?} {} {} cells {:?}", self.imp, self.spec.tag(), match self.corner { None => "Vsym".into(), Some(c) => format!("corner {c:b}") }, self.cells)
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let n = self.spec.dims.len();
        let g = self.spec.grid::<T>(cx);
        // the cell boundaries fork, so in higher dimensions only two axes include them
        let k = self.spec.seed as usize % n;
        let mut r = Rng::new(self.spec.seed ^ 0x51);
        let xs: Vec<XS> = self
            .cells
            .iter()
            .enumerate()
            .map(|(a, c)| {
                if self.corner.is_none() && n > 1 {
                    // table and point both symbolic: one free axis, the others at fixed fractions of their cells
                    if a == k || n == 2 && self.spec.seed & 64 == 0 { XS::Cells(*c, *c) } else { XS::At(*c, r.range(0, 8)) }
                } else if n <= 2 || a == k || a == (k + 1) % n && n <= 5 {
                    XS::Cells(*c, *c)
                } else {
                    XS::Open(*c)
                }
            })
            .collect();
        let x = self.spec.point(cx, &g, &xs, "x");
        let at = |bits: usize| -> usize {
            let ix: Vec<usize> = (0..n).map(|a| self.cells[a] as usize + (bits >> a & 1)).collect();
            flat_of(&self.spec.dims, &ix)
        };
        match self.corner {
            Some(c) => {
                let mut v = vec![T::zero(); self.spec.nvals()];
                v[at(c)] = T::one();
                let got = eval1(cx, Method::Linear, self.imp, &g, &v, &x);
                cx.check_le("weight of a corner is not negative", T::zero(), got, 1.0);
                cx.check_le("weight of a corner is at most one", got, T::one(), 1.0);
                // with the weights summing to one, the result is a convex combination
                for w in v.iter_mut() {
                    *w = T::one();
                }
                let all = eval1(cx, Method::Linear, self.imp, &g, &v, &x);
                cx.check_eq("the weights of the corners sum to one", all, T::one(), 4.0);
            }
            None => {
                let v = self.spec.table::<T>(cx, &TS::Vars((0..1 << n).map(at).collect()), "v");
                let got = eval1(cx, Method::Linear, self.imp, &g, &v, &x);
                if n > 1 {
                    // any bounds of the corner values bound the result
                    let vs = pow2(self.spec.vexp);
                    let lo: T = cx.var("lo", &Rat::int(-8).mul(&vs), &Rat::int(8).mul(&vs));
                    let hi: T = cx.var("hi", &Rat::int(-8).mul(&vs), &Rat::int(8).mul(&vs));
                    for b in 0..1 << n {
                        cx.assume_le(lo, v[at(b)]);
                        cx.assume_le(v[at(b)], hi);
                    }
                    cx.check_le("not below a lower bound of the corner values", lo, got, 8.0);
                    cx.check_le("not above an upper bound of the corner values", got, hi, 8.0);
                    return;
                }
                let (mut lo, mut hi) = (v[at(0)], v[at(0)]);
                for b in 1..1 << n {
                    let w = v[at(b)];
                    if w < lo {
                        lo = w;
                    }
                    if w > hi {
                        hi = w;
                    }
                }
                cx.check_le("not below the smallest corner value", lo, got, 8.0);
                cx.check_le("not above the largest corner value", got, hi, 8.0);
            }
        }
    }
}
pub struct OneRange {
    pub k: One,
    pub how: OneHow,
    pub spec: Spec,
    pub xs: XS,
}
impl Scen for OneRange {
    fn name(&self) -> String {
        format!("range 1-D {:?} {:?} {} x=({})", self.k, self.how, self.spec.tag(), xtag(&[self.xs.clone()]))
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let x = self.spec.obs(cx, &g, 0, &self.xs, "x");
        let v = self.spec.table::<T>(cx, &TS::All, "v");
        let got = one1(cx, self.k, self.how, &g, &v, x);
        let ax = oracle::axis(&g, 0);
        let set: Vec<T> = if matches!(self.xs, XS::In) {
            let i = oracle::cell(&ax, x, g.is_reg());
            vec![v[i], v[i + 1]]
        } else {
            v.clone()
        };
        let (mut lo, mut hi) = (set[0], set[0]);
        for w in set {
            if w < lo {
                lo = w;
            }
            if w > hi {
                hi = w;
            }
        }
        cx.check_le("not below the smallest value", lo, got, 8.0);
        cx.check_le("not above the largest value", got, hi, 8.0);
    }
}

// ---------------------------------------------------------------- C18 permutation and affine maps of axes
pub struct Perm {
    pub m: Method,
    pub imp: Imp,
    pub spec: Spec,
    pub ts: TS,
    pub xs: Vec<XS>,
    /// new axis a is old axis perm[a]
    pub perm: Vec<usize>,
}
impl Scen for Perm {
    fn name(&self) -> String {
        format!("permutation {:?} {} {:?} {} {} x=({})", self.perm, mtag(self.m), self.imp, self.spec.tag(), ttag(&self.ts), xtag(&self.xs))
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let n = self.spec.dims.len();
        let g = self.spec.grid::<T>(cx);
        let x = self.spec.point(cx, &g, &self.xs, "x");
        let v = self.spec.table::<T>(cx, &self.ts, "v");
        let p = &self.perm;
        let d2: Vec<usize> = p.iter().map(|&a| self.spec.dims[a]).collect();
        let g2 = match &g {
            Grid::Reg { starts, steps, .. } => {
                Grid::Reg { dims: d2.clone(), starts: p.iter().map(|&a| starts[a]).collect(), steps: p.iter().map(|&a| steps[a]).collect() }
            }
            Grid::Rect(c) => Grid::Rect(p.iter().map(|&a| c[a].clone()).collect()),
        };
        let v2: Vec<T> = (0..v.len())
            .map(|k| {
                let ix2 = nodes_of(&d2, k);
                let mut ix = vec![0; n];
                for (b, &a) in p.iter().enumerate() {
                    ix[a] = ix2[b];
                }
                v[flat_of(&self.spec.dims, &ix)]
            })
            .collect();
        let x2: Vec<T> = p.iter().map(|&a| x[a]).collect();
        let r1 = eval1(cx, self.m, self.imp, &g, &v, &x);
        let r2 = eval1(cx, self.m, self.imp, &g2, &v2, &x2);
        cx.check_eq("permuting the axes leaves the result unchanged", r2, r1, scale(self.m, &self.spec.dims, &self.xs));
    }
}
pub struct Affine {
    pub m: Method,
    pub imp: Imp,
    pub spec: Spec,
    pub ts: TS,
    pub xs: Vec<XS>,
    pub axis: usize,
    /// symbolic a, b; otherwise a concrete pair
    pub ab: Option<(i64, i64)>,
}
impl Scen for Affine {
    fn name(&self) -> String {
        format!("affine map {} of axis {} {} {:?} {} {} x=({})", match self.ab { None => "sym".into(), Some((a, b)) => format!("{a}/8 {b}/8") }, self.axis, mtag(self.m), self.imp, self.spec.tag(), ttag(&self.ts), xtag(&self.xs))
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let x = self.spec.point(cx, &g, &self.xs, "x");
        let v = self.spec.table::<T>(cx, &self.ts, "v");
        let (a, b): (T, T) = match self.ab {
            None => (cx.var("a", &Rat::frac(1, 8), &Rat::int(8)), cx.vari("b", -16, 16)),
            Some((a, b)) => (T::of_rat(&Rat::frac(a, 8)), T::of_rat(&Rat::frac(b, 8))),
        };
        let ax = self.axis;
        let g2 = match &g {
            Grid::Reg { dims, starts, steps } => {
                let (mut s, mut h) = (starts.clone(), steps.clone());
                s[ax] = a * s[ax] + b;
                h[ax] = a * h[ax];
                Grid::Reg { dims: dims.clone(), starts: s, steps: h }
            }
            Grid::Rect(c) => {
                let mut c = c.clone();
                for t in c[ax].iter_mut() {
                    *t = a * *t + b;
                }
                Grid::Rect(c)
            }
        };
        let mut x2 = x.clone();
        x2[ax] = a * x2[ax] + b;
        let r1 = eval1(cx, self.m, self.imp, &g, &v, &x);
        let r2 = eval1(cx, self.m, self.imp, &g2, &v, &x2);
        cx.check_eq("an affine map of an axis leaves the result unchanged", r2, r1, scale(self.m, &self.spec.dims, &self.xs));
    }
}

// ---------------------------------------------------------------- C19 linearity in the table
pub struct Linearity {
    pub m: Method,
    pub imp: Imp,
    pub spec: Spec,
    pub tu: TS,
    pub tv: TS,
    pub xs: Vec<XS>,
}
impl Scen for Linearity {
    fn name(&self) -> String {
        format!("linearity {} {:?} {} {} {} x=({})", mtag(self.m), self.imp, self.spec.tag(), ttag(&self.tu), ttag(&self.tv), xtag(&self.xs))
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let x = self.spec.point(cx, &g, &self.xs, "x");
        let u = self.spec.table::<T>(cx, &self.tu, "u");
        let mut s2 = self.spec.clone();
        s2.seed ^= 0xFACE;
        let v = s2.table::<T>(cx, &self.tv, "v");
        // the scalars may change the order of magnitude of the table
        let m = pow2(match (self.spec.vexp, (self.spec.seed >> 29) % 3) {
            (0, 1) => -60,
            (0, 2) => 40,
            (-60, 1) => 60,
            (40, 1) => -60,
            _ => 0,
        });
        let a: T = cx.var("a", &Rat::int(-4).mul(&m), &Rat::int(4).mul(&m));
        let b: T = cx.var("b", &Rat::int(-4).mul(&m), &Rat::int(4).mul(&m));
        let w: Vec<T> = u.iter().zip(&v).map(|(u, v)| a * *u + b * *v).collect();
        let ru = eval1(cx, self.m, self.imp, &g, &u, &x);
        let rv = eval1(cx, self.m, self.imp, &g, &v, &x);
        let rw = eval1(cx, self.m, self.imp, &g, &w, &x);
        cx.vscale *= m.to_f64();
        cx.check_eq("a*u+b*v maps to a*f(u)+b*f(v)", rw, a * ru + b * rv, 8.0 * scale(self.m, &self.spec.dims, &self.xs));
    }
}
pub struct ConstTab {
    pub m: Method,
    pub imp: Imp,
    pub spec: Spec,
    pub xs: Vec<XS>,
}
impl Scen for ConstTab {
    fn name(&self) -> String {
        format!("constant table {} {:?} {} x=({})", mtag(self.m), self.imp, self.spec.tag(), xtag(&self.xs))
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let g = self.spec.grid::<T>(cx);
        let x = self.spec.point(cx, &g, &self.xs, "x");
        let vs = pow2(self.spec.vexp);
        cx.vscale = vs.to_f64();
        let c: T = cx.var("c", &Rat::int(-8).mul(&vs), &Rat::int(8).mul(&vs));
        let v = vec![c; self.spec.nvals()];
        let r = eval1(cx, self.m, self.imp, &g, &v, &x);
        cx.check_eq("a constant table gives the constant", r, c, scale(self.m, &self.spec.dims, &self.xs));
    }
}

// ---------------------------------------------------------------- C20 grid helpers
pub struct Linspace {
    pub n: usize,
    pub exp: i32,
}
impl Scen for Linspace {
    fn name(&self) -> String {
        format!("linspace n={} *2^{}", self.n, self.exp)
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let sc = pow2(self.exp);
        let start: T = cx.var("start", &Rat::int(-8).mul(&sc), &Rat::int(8).mul(&sc));
        let stop: T = cx.var("stop", &Rat::int(-8).mul(&sc), &Rat::int(8).mul(&sc));
        cx.funcs.insert("utils::linspace".into());
        let v = interpn::utils::linspace(start, stop, self.n);
        cx.check("n points", v.len() == self.n);
        let s = 8.0 * sc.to_f64();
        cx.check_eq("first point is start", v[0], start, s);
        cx.check_eq("last point is stop", v[self.n - 1], stop, s);
        let k: T = oracle::int(self.n as i64 - 1);
        for i in 0..self.n - 1 {
            cx.check_eq(&format!("difference {i} equals (stop-start)/(n-1)"), (v[i + 1] - v[i]) * k, stop - start, s * self.n as f64);
        }
    }
}
pub struct Meshgrid {
    pub lens: Vec<usize>,
}
impl Scen for Meshgrid {
    fn name(&self) -> String {
        format!("meshgrid {:?}", self.lens)
    }
    fn fp(&self) -> bool {
        true
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let ax: Vec<Vec<T>> =
            self.lens.iter().enumerate().map(|(a, n)| (0..*n).map(|i| cx.vari(&format!("m{a}_{i}"), -8, 8)).collect()).collect();
        cx.funcs.insert("utils::meshgrid".into());
        let m = interpn::utils::meshgrid(ax.iter().collect());
        let total: usize = self.lens.iter().product();
        cx.check("one tuple per combination", m.len() == total);
        for (k, t) in m.iter().enumerate() {
            cx.check("tuple length", t.len() == self.lens.len());
            let ix = nodes_of(&self.lens, k);
            for a in 0..ix.len() {
                cx.check_bits("coordinate in C order", t[a], ax[a][ix[a]]);
            }
        }
    }
}
/// a field evaluated over the mesh is read back consistently
pub struct MeshRead {
    pub reg: bool,
    pub m: Method,
    pub dims: Vec<usize>,
}
impl Scen for MeshRead {
    fn name(&self) -> String {
        format!("mesh feeds the interpolators {} {} {:?}", mtag(self.m), if self.reg { "reg" } else { "rect" }, self.dims)
    }
    fn f64_only(&self) -> bool {
        true
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let n = self.dims.len();
        let spec = Spec::new(self.reg, &self.dims, GS::Conc, 11);
        let g = spec.grid::<T>(cx);
        let ax: Vec<Vec<T>> = (0..n).map(|a| oracle::axis(&g, a)).collect();
        cx.funcs.insert("utils::meshgrid".into());
        let mesh = interpn::utils::meshgrid(ax.iter().collect());
        let c: Vec<T> = (0..=n).map(|a| cx.vari(&format!("c{a}"), -2, 2)).collect();
        let f = |p: &[T]| (0..n).fold(c[n], |s, a| s + c[a] * p[a]);
        let v: Vec<T> = mesh.iter().map(|p| f(p)).collect();
        let xs = vec![XS::In; n];
        let x: Vec<T> = (0..n).map(|a| spec.obs(cx, &g, a, &if a == 0 { xs[0].clone() } else { XS::At(1, 3) }, "x")).collect();
        let got = eval1(cx, self.m, Imp::Conv, &g, &v, &x);
        cx.check_eq("affine field over the mesh is read back", got, f(&x), 2000.0);
    }
}

include!("suites.rs");
