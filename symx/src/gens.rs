//! Shared building blocks of the harnesses: grids, tables, observation points.
use crate::api::{Grid, Method};
use symcore::big::Rat;
use crate::ctx::{Ctx, Num};

/// deterministic generator for concrete parts of a scenario
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x632BE59BD9B4E019) | 1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0 >> 11
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum GS {
    /// concrete coordinates (seeded, uneven for rectilinear, dyadic)
    Conc,
    /// every coordinate symbolic
    Sym,
    /// concrete, evenly spaced coordinates (also for rectilinear)
    Even,
    /// concrete, gaps between 2^-5 and 2^5 (rectilinear), 1/32 .. 32 (regular)
    Wild,
}
#[derive(Clone, PartialEq, Debug)]
pub enum TS {
    /// every table entry an independent symbolic variable
    All,
    /// concrete small integers
    Conc,
    /// concrete except the listed flat indices
    Vars(Vec<usize>),
    /// product of per-axis factors; the factors of the listed axes symbolic, the others concrete
    Rank1(Vec<usize>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum XS {
    /// symbolic, from 2.5 cells below to 2.5 cells above the grid (0.75 cells when there are several axes)
    Free,
    /// symbolic, inside (edges included)
    In,
    /// symbolic, strictly below / above the grid
    Low,
    High,
    /// symbolic within the cells a..=b (cell -1 is below the grid, n-1 above)
    Cells(i64, i64),
    /// concrete: cell index and position inside the cell in eighths
    At(i64, i64),
    /// symbolic, strictly inside one cell (-1 and n-1: strictly outside, up to a bounded distance)
    Open(i64),
    /// symbolic, beyond the low (true) or high end by between a and b edge cells
    Far(bool, i64, i64),
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub reg: bool,
    pub dims: Vec<usize>,
    pub gs: Vec<GS>,
    pub seed: u64,
    /// coordinates are multiplied by 2^exp
    pub exp: i32,
    /// table values are multiplied by 2^vexp (and the tolerance with them)
    pub vexp: i32,
}
pub fn pow2(e: i32) -> Rat {
    let mut r = Rat::one();
    for _ in 0..e.abs() {
        r = r.mul(&Rat::int(2));
    }
    if e < 0 { r.inv() } else { r }
}
impl Spec {
    pub fn new(reg: bool, dims: &[usize], gs: GS, seed: u64) -> Spec {
        let vexp = match (seed >> 17) % 6 {
            0 => -60,
            1 => 40,
            _ => 0,
        };
        Spec { reg, dims: dims.to_vec(), gs: vec![gs; dims.len()], seed, exp: 0, vexp }
    }
    pub fn exp(mut self, e: i32) -> Spec {
        self.exp = e;
        if e != 0 {
            self.vexp = 0; // keeps f32 replays away from overflow
        }
        self
    }
    pub fn axis_gs(mut self, a: usize, g: GS) -> Spec {
        self.gs[a] = g;
        self
    }
    pub fn tag(&self) -> String {
        let g: String = self.gs.iter().map(|g| match g { GS::Conc => 'c', GS::Sym => 's', GS::Even => 'e', GS::Wild => 'w' }).collect();
        let d = if self.dims.len() == 1 { format!("{}", self.dims[0]) } else { format!("{:?}", self.dims).replace(", ", "x") };
        let x = if self.exp != 0 { format!("*2^{}", self.exp) } else { String::new() };
        let y = if self.vexp != 0 { format!("V*2^{}", self.vexp) } else { String::new() };
        format!("{}{}:{}{}{}#{:x}", if self.reg { "reg" } else { "rect" }, d, g, x, y, self.seed & 0xffff)
    }
    pub fn nvals(&self) -> usize {
        self.dims.iter().product()
    }
    /// concrete gaps of an axis
    pub fn gaps(&self, a: usize) -> (Rat, Vec<Rat>) {
        let mut r = Rng::new(self.seed ^ (a as u64 + 1).wrapping_mul(0xABCD_1234_5677));
        let sc = pow2(self.exp);
        let start = Rat::frac(r.range(-16, 16), 4).mul(&sc);
        let even = self.reg || self.gs[a] == GS::Even;
        let wild = self.gs[a] == GS::Wild;
        let step = if wild { pow2(r.range(-5, 5) as i32) } else { Rat::frac(*r.pick(&[1, 2, 3, 4, 5, 6, 8, 12]), 4) }.mul(&sc);
        let gaps = (0..self.dims[a] - 1)
            .map(|_| {
                if even {
                    step.clone()
                } else if wild {
                    pow2(r.range(-5, 5) as i32).mul(&sc)
                } else {
                    Rat::frac(*r.pick(&[1, 2, 3, 4, 6, 8, 10, 16]), 4).mul(&sc)
                }
            })
            .collect();
        (start, gaps)
    }
    pub fn grid<T: Num>(&self, cx: &mut Ctx) -> Grid<T> {
        let n = self.dims.len();
        if self.reg {
            let (mut starts, mut steps) = (vec![], vec![]);
            for a in 0..n {
                let (s, g) = self.gaps(a);
                if self.gs[a] == GS::Sym {
                    let sc = pow2(self.exp);
                    starts.push(cx.var(&format!("start{a}"), &Rat::int(-4).mul(&sc), &Rat::int(4).mul(&sc)));
                    steps.push(cx.var(&format!("step{a}"), &Rat::frac(1, 4).mul(&sc), &Rat::int(4).mul(&sc)));
                } else {
                    starts.push(T::of_rat(&s));
                    steps.push(T::of_rat(&g[0]));
                }
            }
            Grid::Reg { dims: self.dims.clone(), starts, steps }
        } else {
            let mut gr = vec![];
            for a in 0..n {
                let (s, g) = self.gaps(a);
                let mut v = vec![];
                if self.gs[a] == GS::Sym {
                    let sc = pow2(self.exp);
                    let mut c: T = cx.var(&format!("g{a}_0"), &Rat::int(-4).mul(&sc), &Rat::int(4).mul(&sc));
                    v.push(c);
                    for i in 1..self.dims[a] {
                        let h: T = cx.var(&format!("h{a}_{i}"), &Rat::frac(1, 4).mul(&sc), &Rat::int(4).mul(&sc));
                        c = c + h;
                        v.push(c);
                    }
                } else {
                    let mut c = s;
                    v.push(T::of_rat(&c));
                    for h in g {
                        c = c.add(&h);
                        v.push(T::of_rat(&c));
                    }
                }
                gr.push(v);
            }
            Grid::Rect(gr)
        }
    }
    /// value table; returns the table
    pub fn table<T: Num>(&self, cx: &mut Ctx, ts: &TS, tag: &str) -> Vec<T> {
        let n = self.nvals();
        let sc = pow2(self.vexp);
        cx.vscale = sc.to_f64();
        let (lo, hi) = (Rat::int(-8).mul(&sc), Rat::int(8).mul(&sc));
        match ts {
            TS::All => (0..n).map(|i| cx.var(&format!("{tag}{i}"), &lo, &hi)).collect(),
            TS::Vars(free) => {
                let mut r = Rng::new(self.seed ^ 0x7777);
                (0..n)
                    .map(|k| {
                        let c = r.range(-8, 8);
                        if free.contains(&k) { cx.var(&format!("{tag}{k}"), &lo, &hi) } else { T::of_rat(&Rat::int(c).mul(&sc)) }
                    })
                    .collect()
            }
            TS::Conc => {
                let mut r = Rng::new(self.seed ^ 0x7777);
                (0..n).map(|_| T::of_rat(&Rat::int(r.range(-8, 8)).mul(&sc))).collect()
            }
            TS::Rank1(ax) => {
                let mut r = Rng::new(self.seed ^ 0x3333);
                let f: Vec<Vec<T>> = (0..self.dims.len())
                    .map(|a| {
                        (0..self.dims[a])
                            .map(|i| {
                                if ax.contains(&a) {
                                    cx.vari(&format!("{tag}f{a}_{i}"), -4, 4)
                                } else {
                                    // +-1/2, +-3/4, +-1 ... keep products tame
                                    T::of_rat(&Rat::frac(*r.pick(&[-6, -5, -4, -3, -2, 2, 3, 4, 5, 6]), 4))
                                }
                            })
                            .collect()
                    })
                    .collect();
                (0..n)
                    .map(|mut k| {
                        let mut p = T::of_rat(&sc);
                        for a in (0..self.dims.len()).rev() {
                            let i = k % self.dims[a];
                            k /= self.dims[a];
                            p = f[a][i] * p;
                        }
                        p
                    })
                    .collect()
            }
        }
    }
    /// observation coordinate on axis a
    pub fn obs<T: Num>(&self, cx: &mut Ctx, grid: &Grid<T>, a: usize, xs: &XS, tag: &str) -> T {
        let n = self.dims[a] as i64;
        let first = grid.at(a, 0);
        let last = grid.at(a, self.dims[a] - 1);
        let sym = self.gs[a] == GS::Sym;
        let name = format!("{tag}{a}");
        let m4 = if self.dims.len() == 1 { 10 } else { 3 }; // margin in quarter cells
        if let XS::At(c, f) = xs {
            let c = *c;
            let fr = T::of_rat(&Rat::frac(*f, 8));
            let two = T::of_rat(&Rat::int(2));
            return if c < 0 {
                let h = grid.at(a, 1) - first;
                first - (T::one() - fr + T::of_rat(&Rat::int(-c - 1))) * h
            } else if c >= n - 1 {
                let h = last - grid.at(a, self.dims[a] - 2);
                let _ = two;
                last + (fr + T::of_rat(&Rat::int(c - (n - 1)))) * h
            } else {
                let g0 = grid.at(a, c as usize);
                let h = grid.at(a, c as usize + 1) - g0;
                g0 + fr * h
            };
        }
        if self.reg && sym {
            // x = start + u * step covers every x
            let (lo, hi) = match xs {
                XS::Free => (Rat::frac(-m4, 4), Rat::frac(4 * (n - 1) + m4, 4)),
                XS::In => (Rat::int(0), Rat::int(n - 1)),
                XS::Low => (Rat::frac(-m4, 4), Rat::int(0)),
                XS::High => (Rat::int(n - 1), Rat::frac(4 * (n - 1) + m4, 4)),
                XS::Cells(p, q) => (Rat::int(*p), Rat::int(*q + 1)),
                XS::Open(c) => (Rat::int(*c), Rat::int(*c + 1)),
                XS::Far(true, p, q) => (Rat::int(-*q), Rat::int(-*p)),
                XS::Far(false, p, q) => (Rat::int(n - 1 + *p), Rat::int(n - 1 + *q)),
                XS::At(..) => unreachable!(),
            };
            let u: T = cx.var(&name, &lo, &hi);
            match xs {
                XS::Low => cx.assume_lt(u, T::zero()),
                XS::High => cx.assume_lt(T::of_rat(&Rat::int(n - 1)), u),
                XS::Open(c) => {
                    cx.assume_lt(T::of_rat(&Rat::int(*c)), u);
                    cx.assume_lt(u, T::of_rat(&Rat::int(*c + 1)));
                }
                _ => {}
            }
            let step = grid.at(a, 1) - first;
            return first + u * step;
        }
        let (s, g) = self.gaps(a);
        let tot = g.iter().fold(Rat::zero(), |x, y| x.add(y));
        let sc = pow2(self.exp);
        let (blo, bhi) = if sym {
            match xs {
                XS::Far(_, _, q) => (Rat::int(-4 - 4 * q).mul(&sc), Rat::int(4 + 4 * (n - 1) + 4 * q).mul(&sc)),
                _ => (Rat::int(-24).mul(&sc), Rat::int(4 + 4 * (n - 1) + 20).mul(&sc)),
            }
        } else {
            let (h0, h1) = (g[0].clone(), g[g.len() - 1].clone());
            (s.sub(&h0.mul(&Rat::frac(m4, 4))), s.add(&tot).add(&h1.mul(&Rat::frac(m4, 4))))
        };
        let coord = |i: i64| -> Rat {
            let mut c = s.clone();
            for k in 0..i.min(n - 1) {
                c = c.add(&g[k as usize]);
            }
            c
        };
        let (lo, hi) = if sym {
            (blo, bhi)
        } else {
            match xs {
                XS::In => (s.clone(), s.add(&tot)),
                XS::Low => (blo, s.clone()),
                XS::High => (s.add(&tot), bhi),
                XS::Open(c) => (
                    if *c < 0 { blo } else { coord(*c) },
                    if *c >= n - 1 { bhi } else { coord(*c + 1) },
                ),
                XS::Far(true, p, q) => (s.sub(&g[0].mul(&Rat::int(*q))), s.sub(&g[0].mul(&Rat::int(*p)))),
                XS::Far(false, p, q) => {
                    let (e, h) = (s.add(&tot), g[g.len() - 1].clone());
                    (e.add(&h.mul(&Rat::int(*p))), e.add(&h.mul(&Rat::int(*q))))
                }
                XS::Cells(p, q) => (
                    if *p < 0 { blo } else { coord(*p) },
                    if *q >= n - 1 { bhi } else { coord(*q + 1) },
                ),
                _ => (blo, bhi),
            }
        };
        let x: T = cx.var(&name, &lo, &hi);
        match xs {
            XS::In => {
                if sym {
                    cx.assume_le(first, x);
                    cx.assume_le(x, last);
                }
            }
            XS::Low => cx.assume_lt(x, first),
            XS::High => cx.assume_lt(last, x),
            XS::Open(c) => {
                if *c >= 0 {
                    cx.assume_lt(grid.at(a, (*c).min(n - 1) as usize), x);
                }
                if *c < n - 1 {
                    cx.assume_lt(x, grid.at(a, (*c + 1) as usize));
                }
            }
            XS::Far(low, p, q) if sym => {
                let (p, q): (T, T) = (T::of_rat(&Rat::int(*p)), T::of_rat(&Rat::int(*q)));
                if *low {
                    let h = grid.at(a, 1) - first;
                    cx.assume_le(x, first - p * h);
                    cx.assume_le(first - q * h, x);
                } else {
                    let h = last - grid.at(a, self.dims[a] - 2);
                    cx.assume_le(last + p * h, x);
                    cx.assume_le(x, last + q * h);
                }
            }
            XS::Cells(p, q) => {
                if sym {
                    if *p >= 0 {
                        let g0 = grid.at(a, *p as usize);
                        cx.assume_le(g0, x);
                    }
                    if *q < n - 1 {
                        let g1 = grid.at(a, *q as usize + 1);
                        cx.assume_le(x, g1);
                    }
                }
            }
            _ => {}
        }
        x
    }
    pub fn point<T: Num>(&self, cx: &mut Ctx, grid: &Grid<T>, xs: &[XS], tag: &str) -> Vec<T> {
        (0..self.dims.len()).map(|a| self.obs(cx, grid, a, &xs[a], tag)).collect()
    }
}
pub fn xtag(xs: &[XS]) -> String {
    xs.iter()
        .map(|x| match x {
            XS::Free => "*".to_string(),
            XS::In => "in".into(),
            XS::Low => "lo".into(),
            XS::High => "hi".into(),
            XS::Cells(a, b) => format!("{a}..{b}"),
            XS::At(c, f) => format!("{c}+{f}/8"),
            XS::Open(c) => format!("({c})"),
            XS::Far(l, a, b) => format!("far{}{a}..{b}", if *l { "-" } else { "+" }),
        })
        .collect::<Vec<_>>()
        .join(",")
}
pub fn mtag(m: Method) -> &'static str {
    match m {
        Method::Linear => "linear",
        Method::Cubic(false) => "cubic",
        Method::Cubic(true) => "cubic-lin",
        Method::Nearest => "nearest",
    }
}
pub fn ttag(t: &TS) -> String {
    match t {
        TS::All => "Vsym".into(),
        TS::Conc => "Vconc".into(),
        TS::Vars(v) => format!("Vvars{v:?}"),
        TS::Rank1(a) => format!("Vr1{a:?}"),
    }
}
/// magnitude bound used as tolerance scale: table magnitude times the per-axis amplification
pub fn scale(m: Method, dims: &[usize], xs: &[XS]) -> f64 {
    let mut s = 8.0f64;
    for (a, x) in xs.iter().enumerate() {
        let n = dims[a] as i64;
        let out = match x {
            XS::In => false,
            XS::At(c, _) => *c < 0 || *c >= n - 1,
            XS::Cells(p, q) => *p < 0 || *q >= n - 1,
            XS::Open(c) => *c < 0 || *c >= n - 1,
            _ => true,
        };
        if let XS::Far(_, _, q) = x {
            let u = *q as f64 + 2.0;
            s *= match m {
                Method::Nearest => 1.0,
                Method::Linear => 2.0 * u,
                Method::Cubic(false) => 8.0 * u * u,
                Method::Cubic(true) => 20.0 * u,
            };
            continue;
        }
        s *= match (m, out) {
            (Method::Nearest, _) => 1.0,
            (Method::Linear, false) => 1.0,
            (Method::Linear, true) => 6.0,
            (Method::Cubic(_), false) => 3.0,
            (Method::Cubic(_), true) => 40.0,
        };
    }
    s
}

/// number of axes a scenario's name shows (the grid tag, e.g. `rect[4x5]:cc#12`)
pub fn dims_in_name(n: &str) -> usize {
    match n.find("reg[").or(n.find("rect[")) {
        None => 1,
        Some(i) => {
            let t = &n[i..];
            t[..t.find(']').unwrap_or(t.len())].matches('x').count() + 1
        }
    }
}
