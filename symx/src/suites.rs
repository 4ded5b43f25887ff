// Scenario lists per property (included by props.rs).

struct B {
    v: Scens,
    r: Rng,
    thorough: bool,
}
const CUB: [Method; 2] = [Method::Cubic(false), Method::Cubic(true)];
const NDM: [Method; 3] = [Method::Linear, Method::Cubic(false), Method::Cubic(true)];
const ONES: [One; 5] = [One::Left, One::Right, One::Nearest, One::Linear, One::Hold];
const HOWS: [OneHow; 3] = [OneHow::EvalOne, OneHow::Eval, OneHow::EvalAlloc];

#[derive(Clone, Copy, PartialEq)]
enum Where {
    Any,
    In,
    /// the free axis outside the grid
    Out,
}
fn is_cubic(m: Method) -> bool {
    matches!(m, Method::Cubic(_))
}
/// distances outside the grid, in edge cells. Regular grids fork over every cell of the window, so theirs are narrow.
fn fars(reg: bool) -> Vec<(i64, i64)> {
    if reg {
        vec![(2, 5), (9, 11), (63, 65), (999, 1001), (65_535, 65_537), (1 << 31, (1 << 31) + 1)]
    } else {
        vec![(2, 40), (40, 10_000), (10_000, 1 << 31)]
    }
}
impl B {
    fn add<S: Scen + 'static>(&mut self, s: S) {
        self.v.push(Box::new(s));
    }
    fn seed(&mut self) -> u64 {
        self.r.next()
    }
    /// uneven shape; every axis length at least the method's minimum
    fn shape(&mut self, m: Method, n: usize) -> Vec<usize> {
        let lo = if is_cubic(m) { 4 } else { 2 };
        let hi = match (is_cubic(m), n) {
            (true, 0..=2) => 7,
            (true, 3) => 6,
            (true, 4..=6) => 5,
            (true, _) => 4,
            (false, 0..=3) => 6,
            (false, 4..=5) => 4,
            (false, _) => 3,
        };
        let mut d: Vec<usize> = (0..n).map(|_| self.r.range(lo, hi) as usize).collect();
        if is_cubic(m) && n >= 7 {
            // one longer axis at a random place
            let a = self.r.below(n as u64) as usize;
            d[a] = 5;
        }
        // at least two different lengths
        if n > 1 && hi > lo && d.iter().all(|x| *x == d[0]) {
            let a = self.r.below(n as u64) as usize;
            d[a] = if d[0] as i64 == lo { hi as usize } else { lo as usize };
        }
        d
    }
    /// a shape with all lengths distinct where that is affordable
    fn distinct(&mut self, m: Method, n: usize) -> Vec<usize> {
        let lo = if is_cubic(m) { 4 } else { 2 };
        let mut d: Vec<usize> = (lo..lo + n).collect();
        for i in (1..n).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            d.swap(i, j);
        }
        d
    }
    /// concrete position on an axis
    fn at(&mut self, d: usize, w: Where) -> XS {
        let d = d as i64;
        let k = self.r.below(if w == Where::In { 3 } else { 6 });
        let f = *self.r.pick(&[1, 2, 3, 5, 6, 7]);
        match k {
            3 => XS::At(-1, f),
            4 => XS::At(d - 1, f),
            _ => XS::At(self.r.range(0, d - 2), f),
        }
    }
    fn cheap_imps(&mut self, m: Method, n: usize) -> Vec<Imp> {
        let mut v = imps(m, n);
        if n >= 5 && !self.thorough {
            // allocation wrappers share their code with the plain functions; one of them per dimension count
            let drop = if self.r.below(2) == 0 { Imp::Alloc } else { Imp::AllocRec };
            v.retain(|i| *i != drop && *i != Imp::Rec(3));
        }
        if n >= 7 && is_cubic(m) && !self.thorough {
            v.retain(|i| matches!(i, Imp::Conv | Imp::Rec(0)));
        }
        v
    }

    // ---- C01, C02, C03
    fn values(&mut self, ms: &[Method], w: Where) {
        let free = |b: &mut B| match w {
            Where::Any => XS::Free,
            Where::In => XS::In,
            Where::Out => {
                if b.r.below(2) == 0 { XS::Low } else { XS::High }
            }
        };
        let rest = if w == Where::In { Where::In } else { Where::Any };
        for &m in ms {
            let lo = if is_cubic(m) { 4 } else { 2 };
            for reg in [true, false] {
                // one dimension, everything symbolic, every implementation
                for imp in imps(m, 1) {
                    for len in [lo, lo + 1, lo + 3] {
                        if len == lo + 3 && !matches!(imp, Imp::Conv | Imp::Rec(0) | Imp::Flat) && !self.thorough {
                            continue;
                        }
                        let sides: &[XS] = if w == Where::Out { &[XS::Low, XS::High] } else if w == Where::In { &[XS::In] } else { &[XS::Free] };
                        for xs in sides {
                            let s = self.seed();
                            self.add(Value { m, imp, spec: Spec::new(reg, &[len], GS::Sym, s), ts: TS::All, xs: vec![xs.clone()] });
                        }
                    }
                    // far outside
                    if w != Where::In {
                        for (p, q) in fars(reg) {
                            for low in [true, false] {
                                let s = self.seed();
                                let gs = if p < 1000 { GS::Sym } else { GS::Conc };
                                self.add(Value { m, imp, spec: Spec::new(reg, &[lo + 1], gs, s), ts: TS::All, xs: vec![XS::Far(low, p, q)] });
                            }
                        }
                    }
                    // magnitudes of the coordinates, very uneven gaps, zero start
                    for (gs, exp) in [(GS::Wild, 0), (GS::Conc, -40), (GS::Conc, 40), (GS::Wild, -100), (GS::Sym, 60), (GS::Sym, -20)] {
                        let xs = free(self);
                        let s = self.seed();
                        self.add(Value { m, imp, spec: Spec::new(reg, &[lo + 2], gs, s).exp(exp), ts: TS::All, xs: vec![xs] });
                    }
                }
                // long axes: a window of cells near the ends and in the middle
                for len in [257usize, 65_539] {
                    for imp in [Imp::Conv, Imp::Flat, Imp::Rec(0)] {
                        if w == Where::Out {
                            for xs in [XS::Low, XS::High] {
                                let s = self.seed();
                                self.add(Value { m, imp, spec: Spec::new(reg, &[len], GS::Conc, s), ts: TS::Vars(vec![0, 1, 2, len - 3, len - 2, len - 1]), xs: vec![xs] });
                            }
                        } else {
                            let n = len as i64;
                            let k = self.r.range(130, n - 10);
                            for a in [k, n - 4, 255.min(n - 4), 0] {
                                let s = self.seed();
                                let free: Vec<usize> = (a.max(1) - 1..(a + 5).min(n)).map(|x| x as usize).collect();
                                self.add(Value { m, imp, spec: Spec::new(reg, &[len], GS::Conc, s), ts: TS::Vars(free), xs: vec![XS::Cells(a, a + 2)] });
                            }
                        }
                    }
                }
                // two and three dimensions, every table value and every coordinate symbolic
                for n in 2..=3usize {
                    for imp in imps(m, n) {
                        let combos: Vec<Vec<XS>> = if w == Where::Out {
                            let all = [XS::In, XS::Low, XS::High];
                            let mut c = vec![];
                            for k in 1..3usize.pow(n as u32) {
                                let mut q = k;
                                c.push((0..n).map(|_| { let x = all[q % 3].clone(); q /= 3; x }).collect());
                            }
                            if n == 3 && !self.thorough {
                                // a random third, always with the three single-axis extremes
                                let off = self.r.below(3) as usize;
                                c = c.into_iter().enumerate().filter(|(i, _)| i % 3 == off).map(|x| x.1).collect();
                            }
                            c
                        } else if is_cubic(m) && n == 3 {
                            // three free coordinates: one cell window per axis
                            vec![(0..n).map(|_| if w == Where::In { XS::Cells(0, 1) } else { XS::Free }).collect()]
                        } else {
                            vec![vec![free(self); n]]
                        };
                        for xs in combos {
                            let s = self.seed();
                            let dims = if is_cubic(m) && n == 3 { let mut d = vec![4, 4, 4]; let a = self.r.below(3) as usize; d[a] = 5; d } else { self.distinct(m, n) };
                            self.add(Value { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), ts: TS::All, xs });
                        }
                    }
                }
                // one symbolic grid axis among concrete ones
                for n in 2..=4usize {
                    for a in 0..n {
                        let dims = self.shape(m, n);
                        let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, rest)).collect();
                        xs[a] = free(self);
                        let s = self.seed();
                        let spec = Spec::new(reg, &dims, GS::Conc, s).axis_gs(a, GS::Sym);
                        let imp = *self.r.pick(&[Imp::Flat, Imp::Rec(0)]);
                        self.add(Value { m, imp, spec, ts: TS::Rank1(vec![a]), xs });
                    }
                }
                // every dimension count, every implementation, each axis free in turn
                for n in 2..=8usize {
                    for imp in self.cheap_imps(m, n) {
                        let axes: Vec<usize> = if n >= 7 && is_cubic(m) && !self.thorough {
                            let a = self.r.below(n as u64) as usize;
                            vec![a]
                        } else if n >= 7 && !self.thorough {
                            let a = self.r.below(n as u64) as usize;
                            vec![a, (a + n / 2) % n]
                        } else {
                            (0..n).collect()
                        };
                        for a in axes {
                            let dims = self.shape(m, n);
                            let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, rest)).collect();
                            xs[a] = free(self);
                            let s = self.seed();
                            let gs = if self.r.below(4) == 0 { GS::Wild } else { GS::Conc };
                            self.add(Value { m, imp, spec: Spec::new(reg, &dims, gs, s), ts: TS::Rank1(vec![a]), xs });
                        }
                    }
                }
                // two free axes at once in higher dimensions
                for n in 4..=6usize {
                    let reps = if self.thorough { 4 } else { 1 };
                    for _ in 0..reps {
                        let dims = if is_cubic(m) { vec![4; n] } else { self.shape(m, n) };
                        let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, rest)).collect();
                        let a = self.r.below(n as u64) as usize;
                        let b = (a + 1 + self.r.below(n as u64 - 1) as usize) % n;
                        xs[a] = free(self);
                        xs[b] = free(self);
                        let s = self.seed();
                        let imp = *self.r.pick(&imps(m, n));
                        self.add(Value { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), ts: TS::Rank1(vec![a, b]), xs });
                    }
                }
                // long second / first axis
                for dims in [vec![lo, 300], vec![300, lo], vec![lo, 300, lo]] {
                    let a = dims.iter().position(|d| *d == 300).unwrap();
                    let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, rest)).collect();
                    let k = self.r.range(200, 290);
                    xs[a] = match w {
                        Where::Out => free(self),
                        _ => XS::Cells(k, k + 1),
                    };
                    let imp = *self.r.pick(&[Imp::Flat, Imp::Conv, Imp::Rec(0)]);
                    let s = self.seed();
                    self.add(Value { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), ts: TS::Conc, xs });
                }
            }
        }
    }

    fn continuity(&mut self) {
        for lin in [false, true] {
            let m = Method::Cubic(lin);
            for reg in [true, false] {
                for imp in imps(m, 1) {
                    for len in [4usize, 5, 6, 7] {
                        if len > 5 && !matches!(imp, Imp::Flat | Imp::Rec(0)) && !self.thorough {
                            continue;
                        }
                        for node in 0..len {
                            let s = self.seed();
                            self.add(Cont { lin, imp, spec: Spec::new(reg, &[len], GS::Sym, s), ts: TS::All, axis: 0, node, xs: vec![XS::At(0, 4)] });
                        }
                    }
                }
                for n in 2..=8usize {
                    let im: Vec<Imp> = if n <= 4 { vec![Imp::Flat, Imp::Rec(0), Imp::Conv] } else if n <= 6 { vec![Imp::Conv, Imp::Rec(0)] } else { vec![Imp::Conv] };
                    for imp in im {
                        let axes: Vec<usize> = if n <= 4 || self.thorough { (0..n).collect() } else { let a = self.r.below(n as u64) as usize; vec![a] };
                        for a in axes {
                            let dims = self.shape(m, n);
                            let nodes: Vec<usize> = if n <= 5 { (0..dims[a]).collect() } else { let k = self.r.below(dims[a] as u64) as usize; vec![k] };
                            for node in nodes {
                                let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, Where::Any)).collect();
                                xs[a] = XS::At(0, 4);
                                let s = self.seed();
                                self.add(Cont { lin, imp, spec: Spec::new(reg, &dims, GS::Conc, s), ts: TS::Rank1(vec![a]), axis: a, node, xs });
                            }
                        }
                    }
                }
                // every table value and the other coordinate symbolic
                for a in 0..2usize {
                    for node in 0..4usize {
                        let s = self.seed();
                        let mut dims = vec![5, 5];
                        dims[a] = 4;
                        self.add(Cont { lin, imp: *self.r.clone().pick(&[Imp::Flat, Imp::Rec(0)]), spec: Spec::new(reg, &dims, GS::Conc, s), ts: TS::All, axis: a, node, xs: { let mut x = vec![XS::Free; 2]; x[a] = XS::At(0, 4); x } });
                    }
                }
            }
        }
    }

    fn polynomials(&mut self) {
        for m in NDM {
            let (lo, deg) = if is_cubic(m) { (4usize, 2usize) } else { (2, 1) };
            for reg in [true, false] {
                // (degree, where) pairs the property promises
                let mut cases = vec![];
                match m {
                    Method::Linear => cases.push((1, XS::Free)),
                    Method::Cubic(false) => {
                        cases.push((2, XS::Free));
                        cases.push((1, XS::Free));
                    }
                    _ => {
                        cases.push((2, XS::In));
                        cases.push((1, XS::Free));
                    }
                }
                let _ = deg;
                for (d, xs) in cases {
                    for imp in imps(m, 1) {
                        for len in [lo, lo + 1, lo + 2] {
                            let s = self.seed();
                            self.add(Poly { m, imp, spec: Spec::new(reg, &[len], GS::Sym, s), deg: d, full: true, sym_axes: vec![], xs: vec![xs.clone()] });
                        }
                        let s = self.seed();
                        self.add(Poly { m, imp, spec: Spec::new(reg, &[lo + 3], GS::Wild, s), deg: d, full: true, sym_axes: vec![], xs: vec![xs.clone()] });
                        if matches!(xs, XS::Free) {
                            for low in [true, false] {
                                for (p, q) in fars(reg) {
                                    // what a quadratic continuation loses to rounding grows with the square of the distance
                                    if m == Method::Cubic(false) && p > 100 {
                                        continue;
                                    }
                                    let (p, q) = if m == Method::Cubic(false) { (p, q.min(p + 30)) } else { (p, q) };
                                    let s = self.seed();
                                    self.add(Poly { m, imp, spec: Spec::new(reg, &[lo + 1], GS::Conc, s), deg: d, full: true, sym_axes: vec![], xs: vec![XS::Far(low, p, q)] });
                                }
                            }
                        }
                    }
                    for n in 2..=3usize {
                        for imp in imps(m, n) {
                            if n == 3 && is_cubic(m) && !matches!(imp, Imp::Flat | Imp::Rec(0)) && !self.thorough {
                                continue;
                            }
                            let s = self.seed();
                            let dims = if is_cubic(m) { let mut x = vec![4; n]; let a = self.r.below(n as u64) as usize; x[a] = 5; x } else { self.distinct(m, n) };
                            self.add(Poly { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), deg: d, full: true, sym_axes: vec![], xs: vec![xs.clone(); n] });
                        }
                    }
                    for n in 2..=8usize {
                        for imp in self.cheap_imps(m, n) {
                            if n >= 5 && is_cubic(m) && !matches!(imp, Imp::Conv | Imp::Rec(0)) && !self.thorough {
                                continue;
                            }
                            if n >= 7 && is_cubic(m) && imp != Imp::Conv && !self.thorough {
                                continue;
                            }
                            let a = self.r.below(n as u64) as usize;
                            let dims = self.shape(m, n);
                            let inside = matches!(xs, XS::In);
                            let mut x: Vec<XS> = dims.iter().map(|k| self.at(*k, if inside { Where::In } else { Where::Any })).collect();
                            x[a] = xs.clone();
                            let s = self.seed();
                            self.add(Poly { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), deg: d, full: false, sym_axes: vec![a], xs: x.clone() });
                            if d == 1 && !inside && m != Method::Cubic(false) && (n <= 4 || m == Method::Linear) {
                                let (p, q) = *self.r.pick(&fars(reg)[1..]);
                                x[a] = XS::Far(self.r.below(2) == 0, p, q);
                                let s = self.seed();
                                self.add(Poly { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), deg: d, full: false, sym_axes: vec![a], xs: x });
                            }
                        }
                    }
                }
            }
        }
    }

    fn nearest(&mut self) {
        let m = Method::Nearest;
        for reg in [true, false] {
            for imp in imps(m, 1) {
                for len in [2usize, 3, 5] {
                    let s = self.seed();
                    self.add(Value { m, imp, spec: Spec::new(reg, &[len], GS::Sym, s), ts: TS::All, xs: vec![XS::Free] });
                }
                for (gs, exp) in [(GS::Wild, 0), (GS::Conc, -40), (GS::Conc, 40), (GS::Sym, 50), (GS::Sym, -30)] {
                    let s = self.seed();
                    self.add(Value { m, imp, spec: Spec::new(reg, &[5], gs, s).exp(exp), ts: TS::All, xs: vec![XS::Free] });
                }
                for low in [true, false] {
                    for (p, q) in fars(reg) {
                        let s = self.seed();
                        self.add(Value { m, imp, spec: Spec::new(reg, &[4], GS::Conc, s), ts: TS::All, xs: vec![XS::Far(low, p, q)] });
                    }
                }
                for len in [257usize, 65_539] {
                    let n = len as i64;
                    let k = self.r.range(130, n - 10);
                    for a in [k, n - 4, 254, 0] {
                        let s = self.seed();
                        let free: Vec<usize> = (a..(a + 5).min(n)).map(|x| x as usize).collect();
                        self.add(Value { m, imp, spec: Spec::new(reg, &[len], GS::Conc, s), ts: TS::Vars(free), xs: vec![XS::Cells(a, (a + 2).min(n - 1))] });
                    }
                }
            }
            for imp in imps(m, 2) {
                for _ in 0..2 {
                    let s = self.seed();
                    let dims = self.distinct(m, 2);
                    self.add(Value { m, imp, spec: Spec::new(reg, &dims, GS::Sym, s), ts: TS::All, xs: vec![XS::Free; 2] });
                }
            }
            for n in 2..=6usize {
                for imp in imps(m, n) {
                    for a in 0..n {
                        let dims = self.shape(m, n);
                        let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, Where::Any)).collect();
                        xs[a] = XS::Free;
                        let b = (a + 1) % n;
                        if self.r.below(2) == 0 {
                            xs[b] = XS::Free;
                        }
                        let gs = *self.r.pick(&[GS::Conc, GS::Wild, GS::Sym]);
                        let s = self.seed();
                        self.add(Value { m, imp, spec: Spec::new(reg, &dims, gs, s), ts: TS::All, xs });
                    }
                    let dims = vec![2; n];
                    let s = self.seed();
                    if n <= 4 {
                        self.add(Value { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), ts: TS::All, xs: vec![XS::Free; n] });
                    }
                }
            }
            // exact midpoints on every axis at once
            for n in 1..=6usize {
                for imp in imps(m, n) {
                    for _ in 0..3 {
                        let dims = self.shape(m, n);
                        let xs: Vec<XS> = dims.iter().map(|d| XS::At(self.r.range(0, *d as i64 - 2), 4)).collect();
                        let s = self.seed();
                        self.add(Value { m, imp, spec: Spec::new(reg, &dims, GS::Sym, s), ts: TS::All, xs });
                    }
                }
            }
        }
    }

    fn ones(&mut self, ks: &[One]) {
        for &k in ks {
            let hold = matches!(k, One::Left | One::Right);
            for reg in [true, false] {
                for how in HOWS {
                    for len in [2usize, 3, 4, 7] {
                        if hold {
                            for c in -1..len as i64 {
                                let s = self.seed();
                                self.add(OneVal { k, how, spec: Spec::new(reg, &[len], GS::Sym, s), ts: TS::All, xs: XS::Open(c) });
                            }
                        } else {
                            let s = self.seed();
                            self.add(OneVal { k, how, spec: Spec::new(reg, &[len], GS::Sym, s), ts: TS::All, xs: XS::Free });
                        }
                    }
                    for (gs, exp) in [(GS::Wild, 0), (GS::Conc, -60), (GS::Conc, 60), (GS::Sym, 40), (GS::Sym, -20)] {
                        let cells = if hold { vec![XS::Open(-1), XS::Open(0), XS::Open(2), XS::Open(3), XS::Open(4)] } else { vec![XS::Free] };
                        for xs in cells {
                            let s = self.seed();
                            self.add(OneVal { k, how, spec: Spec::new(reg, &[5], gs, s).exp(exp), ts: TS::All, xs });
                        }
                    }
                    for low in [true, false] {
                        for (p, q) in fars(reg) {
                            let s = self.seed();
                            let gs = if p < 1000 { GS::Sym } else { GS::Conc };
                            self.add(OneVal { k, how, spec: Spec::new(reg, &[4], gs, s), ts: TS::All, xs: XS::Far(low, p, q) });
                        }
                    }
                    for len in [257usize, 65_539] {
                        let n = len as i64;
                        let c = self.r.range(140, n - 10);
                        for a in [-1, 0, c, 255, n - 2, n - 1] {
                            let s = self.seed();
                            let free: Vec<usize> = (a.max(0)..(a + 2).min(n)).map(|x| x as usize).collect();
                            self.add(OneVal { k, how, spec: Spec::new(reg, &[len], GS::Conc, s), ts: TS::Vars(free), xs: XS::Open(a) });
                        }
                    }
                }
            }
        }
    }

    fn nodes(&mut self) {
        for m in [Method::Linear, Method::Cubic(false), Method::Cubic(true), Method::Nearest] {
            let lo = if is_cubic(m) { 4usize } else { 2 };
            for reg in [true, false] {
                for imp in imps(m, 1) {
                    for len in [lo, lo + 1, lo + 4] {
                        let s = self.seed();
                        self.add(Node { m, imp, spec: Spec::new(reg, &[len], GS::Sym, s), all: true, nodes: (0..len).collect() });
                    }
                    let s = self.seed();
                    self.add(Node { m, imp, spec: Spec::new(reg, &[lo + 3], GS::Wild, s).exp(-30), all: true, nodes: (0..lo + 3).collect() });
                    for len in [257usize, 65_539] {
                        let k = self.r.range(130, len as i64 - 10) as usize;
                        let s = self.seed();
                        self.add(Node { m, imp, spec: Spec::new(reg, &[len], GS::Conc, s), all: false, nodes: vec![0, 1, k, 127, 128, 255, 256, len - 2, len - 1] });
                    }
                }
                for n in 2..=max_conv(m) {
                    for imp in self.cheap_imps(m, n) {
                        let small = n <= if is_cubic(m) { 3 } else { 4 };
                        if small {
                            let dims = self.distinct(m, n);
                            let nv = dims.iter().product::<usize>();
                            let s = self.seed();
                            let gs = if n == 2 && m != Method::Nearest { GS::Sym } else { GS::Conc };
                            let list = if nv <= 130 { (0..nv).collect() } else { (0..40).map(|_| self.r.below(nv as u64) as usize).chain([0, nv - 1]).collect() };
                            self.add(Node { m, imp, spec: Spec::new(reg, &dims, gs, s), all: true, nodes: list });
                        } else {
                            let dims = self.shape(m, n);
                            let nv = dims.iter().product::<usize>();
                            let mut list = vec![0, nv - 1];
                            for _ in 0..if n >= 7 { 3 } else { 6 } {
                                list.push(self.r.below(nv as u64) as usize);
                            }
                            // neighbours of the far corner along every axis
                            for a in 0..if n >= 7 && is_cubic(m) { 1 } else { n } {
                                let mut ix: Vec<usize> = dims.iter().map(|d| d - 1).collect();
                                ix[a] -= 1;
                                list.push(flat_of(&dims, &ix));
                            }
                            let s = self.seed();
                            self.add(Node { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), all: false, nodes: list });
                        }
                    }
                }
            }
        }
        for k in [One::Linear, One::Hold, One::Nearest] {
            for reg in [true, false] {
                for how in HOWS {
                    for len in [2usize, 3, 8] {
                        let s = self.seed();
                        self.add(OneNode { k, how, spec: Spec::new(reg, &[len], GS::Sym, s) });
                    }
                }
            }
        }
    }

    fn locality(&mut self) {
        for m in [Method::Linear, Method::Cubic(false), Method::Cubic(true), Method::Nearest] {
            let lens: &[usize] = if is_cubic(m) { &[4, 5, 8] } else { &[2, 3, 6] };
            for reg in [true, false] {
                for imp in imps(m, 1) {
                    for &len in lens {
                        for c in -1..len as i64 {
                            let s = self.seed();
                            let inf = self.r.below(2) == 0;
                            let gs = *self.r.pick(&[GS::Sym, GS::Wild]);
                            for upper in if m == Method::Nearest && c >= 0 && c < len as i64 - 1 { vec![false, true] } else { vec![false] } {
                                self.add(Local { m, imp, spec: Spec::new(reg, &[len], gs, s), inf, cells: vec![c], upper });
                            }
                        }
                    }
                }
                for n in 2..=max_conv(m) {
                    for imp in self.cheap_imps(m, n) {
                        let reps = match (n, is_cubic(m)) {
                            (2..=3, _) => 6,
                            (4..=6, false) => 4,
                            (4..=5, true) => 3,
                            _ => 1,
                        };
                        for i in 0..reps {
                            let mut dims = self.shape(m, n);
                            if n <= 4 {
                                let a = self.r.below(n as u64) as usize;
                                dims[a] += 3;
                            }
                            let cells: Vec<i64> = dims.iter().map(|d| self.r.range(-1, *d as i64 - 1)).collect();
                            let s = self.seed();
                            let upper = self.r.below(2) == 0;
                            self.add(Local { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), inf: i % 2 == 1, cells, upper });
                        }
                    }
                }
            }
        }
    }

    fn reg_rect(&mut self) {
        for m in [Method::Linear, Method::Cubic(false), Method::Cubic(true), Method::Nearest] {
            let lo = if is_cubic(m) { 4usize } else { 2 };
            for imp in imps(m, 1) {
                for len in [lo, lo + 1, lo + 3] {
                    let s = self.seed();
                    self.add(RegRect { m, imp, spec: Spec::new(true, &[len], GS::Sym, s), ts: TS::All, xs: vec![XS::Free] });
                }
                for e in [-40, 40] {
                    let s = self.seed();
                    self.add(RegRect { m, imp, spec: Spec::new(true, &[lo + 1], GS::Wild, s).exp(e), ts: TS::All, xs: vec![XS::Free] });
                }
                for low in [true, false] {
                    let s = self.seed();
                    self.add(RegRect { m, imp, spec: Spec::new(true, &[lo + 1], GS::Conc, s), ts: TS::All, xs: vec![XS::Far(low, 101, 103)] });
                }
            }
            for n in 2..=3usize {
                for imp in imps(m, n) {
                    let s = self.seed();
                    let dims = if is_cubic(m) { let mut x = vec![4; n]; let a = self.r.below(n as u64) as usize; x[a] = 5; x } else { self.distinct(m, n) };
                    let mut xs = vec![XS::Free; n];
                    if n == 3 && (is_cubic(m) || m == Method::Nearest) && !self.thorough {
                        // one axis free, the others symbolic in a narrow window
                        let a = self.r.below(3) as usize;
                        for (i, x) in xs.iter_mut().enumerate() {
                            if i != a {
                                *x = self.r.clone().pick(&[XS::Open(0), XS::Open(dims[i] as i64 - 2), XS::Open(0), XS::Low, XS::High]).clone();
                                self.r.next();
                            }
                        }
                        if !matches!(imp, Imp::Flat | Imp::Rec(0) | Imp::Conv) {
                            continue;
                        }
                    }
                    self.add(RegRect { m, imp, spec: Spec::new(true, &dims, GS::Conc, s), ts: TS::All, xs });
                }
            }
            for n in 2..=max_conv(m) {
                for imp in self.cheap_imps(m, n) {
                    let axes: Vec<usize> = if n <= 4 || (n <= 6 && !is_cubic(m)) { (0..n).collect() } else { vec![self.r.below(n as u64) as usize] };
                    if n >= 7 && is_cubic(m) && imp != Imp::Conv && !self.thorough {
                        continue;
                    }
                    for a in axes {
                        let dims = self.shape(m, n);
                        let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, Where::Any)).collect();
                        xs[a] = XS::Free;
                        let s = self.seed();
                        let ts = if m == Method::Nearest { TS::Conc } else { TS::Rank1(vec![a]) };
                        self.add(RegRect { m, imp, spec: Spec::new(true, &dims, GS::Conc, s), ts, xs });
                    }
                }
            }
        }
        for k in [One::Linear, One::Hold, One::Nearest] {
            for how in HOWS {
                for len in [2usize, 3, 6] {
                    let s = self.seed();
                    self.add(RegRectOne { k, how, spec: Spec::new(true, &[len], GS::Sym, s), xs: XS::Free });
                }
                let s = self.seed();
                self.add(RegRectOne { k, how, spec: Spec::new(true, &[4], GS::Wild, s).exp(-50), xs: XS::Free });
                for low in [true, false] {
                    let s = self.seed();
                    self.add(RegRectOne { k, how, spec: Spec::new(true, &[4], GS::Conc, s), xs: XS::Far(low, 101, 103) });
                }
            }
        }
    }

    fn equivalence(&mut self) {
        for m in [Method::Linear, Method::Cubic(false), Method::Cubic(true), Method::Nearest] {
            for reg in [true, false] {
                for n in 1..=max_conv(m) {
                    let base = if n <= max_flat(m) { Imp::Flat } else { Imp::Conv };
                    let others: Vec<Imp> = imps(m, n).into_iter().filter(|i| *i != base).collect();
                    let specs: usize = if n <= 3 { 3 } else if n <= 6 { 2 } else { 1 };
                    for rep in 0..specs {
                        let full = n <= 2 || (n == 3 && !is_cubic(m));
                        let dims = if full { self.distinct(m, n) } else { self.shape(m, n) };
                        let s = self.seed();
                        let gs = if n == 1 || m == Method::Nearest { GS::Sym } else { GS::Conc };
                        if full && rep == 0 {
                            self.add(Equiv { m, base, others: others.clone(), spec: Spec::new(reg, &dims, gs, s), ts: TS::All, xs: vec![XS::Free; n] });
                            continue;
                        }
                        let axes: Vec<usize> = if n <= 4 || (n <= 6 && rep == 0 && !is_cubic(m)) { (0..n).collect() } else { vec![self.r.below(n as u64) as usize] };
                        for a in axes {
                            let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, Where::Any)).collect();
                            xs[a] = XS::Free;
                            let o = if n >= 7 && is_cubic(m) && !self.thorough { vec![Imp::Rec(0)] } else { others.clone() };
                            let ts = if m == Method::Nearest { TS::All } else { TS::Rank1(vec![a]) };
                            self.add(Equiv { m, base, others: o, spec: Spec::new(reg, &dims, gs, s), ts, xs });
                        }
                    }
                    // far outside on one axis
                    if n <= 3 {
                        for low in [true, false] {
                            let dims = self.shape(m, n);
                            let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, Where::Any)).collect();
                            let a = self.r.below(n as u64) as usize;
                            xs[a] = XS::Far(low, 37, 39);
                            let s = self.seed();
                            let ts = if m == Method::Nearest { TS::Conc } else { TS::Rank1(vec![a]) };
                            self.add(Equiv { m, base, others: others.clone(), spec: Spec::new(reg, &dims, GS::Conc, s), ts, xs });
                        }
                    }
                }
                for imp in [Imp::Conv, Imp::Alloc] {
                    for n in [0, 1, 6, 7, 8, 9, 10] {
                        if is_cubic(m) && n > 8 && !reg {
                            // 4^9 values are still fine
                        }
                        let ok = n >= 1 && n <= max_conv(m);
                        if n == 0 && imp == Imp::Alloc {
                            continue; // no observation array to take a length from
                        }
                        if n == 10 && is_cubic(m) {
                            continue;
                        }
                        self.add(DimLimit { m, imp, reg, n, ok });
                    }
                }
            }
        }
    }

    fn batches(&mut self) {
        for m in [Method::Linear, Method::Cubic(false), Method::Cubic(true), Method::Nearest] {
            let lo = if is_cubic(m) { 4usize } else { 2 };
            for reg in [true, false] {
                // two and three fully free points
                for imp in imps(m, 1) {
                    let single = if matches!(imp, Imp::Flat | Imp::FlatOne) { Imp::FlatOne } else { Imp::Conv };
                    let single = if matches!(imp, Imp::Rec(_) | Imp::RecOne(_) | Imp::ConvRec | Imp::AllocRec) { Imp::RecOne(0) } else { single };
                    let s = self.seed();
                    self.add(Batch { m, imp, single, spec: Spec::new(reg, &[lo + 1], GS::Sym, s), ts: TS::All, pts: vec![vec![XS::Free]; 2] });
                    let s = self.seed();
                    let three = self.thorough || matches!((imp, m), (Imp::Flat, Method::Linear) | (Imp::Rec(0), Method::Linear)) && !reg;
                    let mut pts = vec![vec![XS::Free]; 3];
                    if !three {
                        pts[self.r.below(3) as usize] = vec![XS::Open(0)];
                    }
                    self.add(Batch { m, imp, single, spec: Spec::new(reg, &[lo.max(3)], GS::Conc, s), ts: TS::All, pts });
                }
                for n in 1..=max_conv(m) {
                    for imp in self.cheap_imps(m, n) {
                        let single = match imp {
                            Imp::Flat | Imp::FlatOne => Imp::FlatOne,
                            Imp::Rec(k) | Imp::RecOne(k) => Imp::RecOne(k),
                            Imp::Conv | Imp::Alloc => Imp::Conv,
                            Imp::ConvRec | Imp::AllocRec => Imp::ConvRec,
                        };
                        let main = self.thorough || matches!(imp, Imp::Flat | Imp::Conv | Imp::Rec(0));
                        let mut lens: Vec<usize> = match (n, is_cubic(m)) {
                            (1, _) if main => vec![1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129],
                            (1, _) => vec![1, 3, 5, 8, 17],
                            (2, _) if main => vec![2, 3, 4, 8, 9, 17, 33],
                            (2, _) => vec![2, 5, 9],
                            (3, false) => vec![2, 5, 9, 17],
                            (3, true) => vec![2, 5, 9],
                            (4..=6, false) => vec![2, 9],
                            (4, true) => vec![2, 5],
                            (5..=6, true) => vec![3],
                            _ => vec![2],
                        };
                        if n == 1 && (self.thorough || m == Method::Linear && matches!(imp, Imp::Flat | Imp::Rec(0))) {
                            lens.push(257);
                        }
                        if n == 2 && main && m == Method::Linear {
                            lens.push(65);
                        }
                        for k in lens {
                            let dims = self.shape(m, n);
                            // outside the grid a symbolic coordinate spans several cells: concrete there
                            let pts: Vec<Vec<XS>> = (0..k)
                                .map(|_| {
                                    dims.iter()
                                        .map(|d| {
                                            let c = self.r.range(-1, *d as i64 - 1);
                                            if c >= 0 && c < *d as i64 - 1 { XS::Open(c) } else { XS::At(c, *self.r.pick(&[1, 3, 6])) }
                                        })
                                        .collect()
                                })
                                .collect();
                            let s = self.seed();
                            let small = dims.iter().product::<usize>() <= if k > 9 { 64 } else { 300 };
                            let nearest = m == Method::Nearest;
                            // the nearest method forks inside the cell: fix the half
                            let pts = if nearest { pts.into_iter().map(|p| p.into_iter().map(|x| match x { XS::Open(c) => XS::At(c, *self.r.pick(&[1, 3, 4, 5, 7])), x => x }).collect()).collect() } else { pts };
                            self.add(Batch { m, imp, single, spec: Spec::new(reg, &dims, GS::Conc, s), ts: if small { TS::All } else { TS::Conc }, pts });
                        }
                        self.add(Empty { m, imp, reg, n });
                    }
                    // the convenience function against the struct, bit for bit only within one implementation family
                }
            }
        }
        for k in ONES {
            for reg in [true, false] {
                for how in [OneHow::Eval, OneHow::EvalAlloc] {
                    let s = self.seed();
                    self.add(OneBatch { k, how, spec: Spec::new(reg, &[4], GS::Conc, s), pts: vec![XS::Free, XS::Free] });
                    let s = self.seed();
                    self.add(OneBatch { k, how, spec: Spec::new(reg, &[3], GS::Sym, s), pts: vec![XS::Free] });
                    for len in [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 65, 129, 257] {
                        let s = self.seed();
                        let pts = (0..len).map(|_| { let c = self.r.range(-1, 5); let f = *self.r.pick(&[1, 2, 3, 4, 5, 6, 7]); if k == One::Nearest || c < 0 || c >= 5 { XS::At(c, f) } else { XS::Open(c) } }).collect();
                        self.add(OneBatch { k, how, spec: Spec::new(reg, &[6], GS::Conc, s), pts });
                    }
                }
            }
        }
    }

    fn bounds(&mut self) {
        for rec in [false, true] {
            for reg in [true, false] {
                for nobs in 0..=3usize {
                    for len in [2usize, 3, 6] {
                        for atol_sym in [true, false] {
                            let s = self.seed();
                            self.add(Bounds { rec, spec: Spec::new(reg, &[len], GS::Sym, s), nobs: vec![nobs], atol_sym, free: vec![0] });
                        }
                    }
                }
                for (gs, e) in [(GS::Wild, 0), (GS::Conc, 12)] {
                    let s = self.seed();
                    self.add(Bounds { rec, spec: Spec::new(reg, &[5], gs, s).exp(e), nobs: vec![2], atol_sym: true, free: vec![0] });
                }
                let s = self.seed();
                self.add(Bounds { rec, spec: Spec::new(reg, &[65_539], GS::Conc, s), nobs: vec![1], atol_sym: true, free: vec![0] });
                for n in 2..=9usize {
                    for a in 0..n {
                        let dims = self.shape(Method::Linear, n);
                        let nobs = (0..n).map(|_| self.r.range(1, 3) as usize).collect::<Vec<_>>();
                        let mut nobs = nobs;
                        nobs[a] = if n <= 4 { 2 } else { 1 };
                        let s = self.seed();
                        self.add(Bounds { rec, spec: Spec::new(reg, &dims, GS::Conc, s).axis_gs(a, GS::Sym), nobs, atol_sym: a % 2 == 0, free: vec![a] });
                    }
                    let dims = self.shape(Method::Linear, n);
                    let s = self.seed();
                    if n <= 3 {
                        self.add(Bounds { rec, spec: Spec::new(reg, &dims, GS::Conc, s), nobs: vec![1; n], atol_sym: true, free: (0..n).collect() });
                    }
                }
                // many observations, the offending one anywhere
                for k in [17usize, 64, 130] {
                    let s = self.seed();
                    self.add(BoundsMany { rec, spec: Spec::new(reg, &[4, 3], GS::Conc, s), nobs: k, axis: (k % 2), pos: self.r.clone().below(k as u64) as usize });
                    let s = self.seed();
                    self.add(BoundsMany { rec, spec: Spec::new(reg, &[4, 3], GS::Conc, s), nobs: k, axis: (k + 1) % 2, pos: k - 1 });
                }
                for n in [1usize, 2, 3, 6, 8, 9] {
                    for (p, q) in [(n, n), (n - 1, n), (n + 1, n), (n, n - 1), (n, n + 1), (n + 1, n + 1), (n - 1, n - 1)] {
                        self.add(BoundsDims { rec, reg, n, nobs: p, nout: q });
                    }
                }
            }
        }
    }

    fn ranges(&mut self) {
        let m = Method::Linear;
        for reg in [true, false] {
            for imp in imps(m, 1) {
                for len in [2usize, 4] {
                    for c in 0..len as i64 - 1 {
                        let s = self.seed();
                        self.add(Range { imp, spec: Spec::new(reg, &[len], GS::Sym, s), corner: None, cells: vec![c] });
                    }
                }
            }
            for n in 1..=8usize {
                for imp in self.cheap_imps(m, n) {
                    let reps = if n <= 3 { 1 << n } else { 3 };
                    for i in 0..reps {
                        let dims = self.shape(m, n);
                        let cells: Vec<i64> = dims.iter().map(|d| self.r.range(0, *d as i64 - 2)).collect();
                        let s = self.seed();
                        let corner = if n <= 3 { i } else { self.r.below(1 << n) as usize };
                        self.add(Range { imp, spec: Spec::new(reg, &dims, GS::Conc, s), corner: Some(corner), cells });
                    }
                }
            }
            for n in 2..=8usize {
                for imp in self.cheap_imps(m, n) {
                    for _ in 0..if n <= 4 { 3 } else if n <= 6 || self.thorough { 2 } else { 1 } {
                        let dims = self.shape(m, n);
                        let cells: Vec<i64> = dims.iter().map(|d| self.r.range(0, *d as i64 - 2)).collect();
                        let s = self.seed();
                        self.add(Range { imp, spec: Spec::new(reg, &dims, GS::Conc, s), corner: None, cells });
                    }
                }
            }
            for k in [One::Linear, One::Hold] {
                for how in HOWS {
                    for len in [2usize, 3, 4] {
                        let s = self.seed();
                        self.add(OneRange { k, how, spec: Spec::new(reg, &[len], GS::Sym, s), xs: XS::In });
                    }
                }
            }
            for how in HOWS {
                for len in [2usize, 3] {
                    let s = self.seed();
                    self.add(OneRange { k: One::Hold, how, spec: Spec::new(reg, &[len], GS::Sym, s), xs: XS::Free });
                }
            }
        }
    }

    fn relabel(&mut self) {
        for m in [Method::Linear, Method::Cubic(false), Method::Cubic(true), Method::Nearest] {
            let lo = if is_cubic(m) { 4usize } else { 2 };
            for reg in [true, false] {
                for n in 2..=max_conv(m) {
                    for imp in self.cheap_imps(m, n) {
                        if n >= 7 && imp != Imp::Conv && !self.thorough {
                            continue;
                        }
                        let reps = if n <= 4 { n } else { 2.min(9 - n) };
                        for i in 0..reps {
                            let dims = if n <= 3 { self.distinct(m, n) } else { self.shape(m, n) };
                            let mut perm: Vec<usize> = (0..n).collect();
                            if i == 0 {
                                perm.reverse();
                            } else {
                                for j in (1..n).rev() {
                                    let k = self.r.below(j as u64 + 1) as usize;
                                    perm.swap(j, k);
                                }
                                if perm.iter().enumerate().all(|(a, b)| a == *b) {
                                    perm.rotate_left(1);
                                }
                            }
                            let a = self.r.below(n as u64) as usize;
                            let all = n == 2;
                            let xs: Vec<XS> = if all { vec![XS::Free; 2] } else { let mut x: Vec<XS> = dims.iter().map(|d| self.at(*d, Where::Any)).collect(); x[a] = XS::Free; x };
                            let s = self.seed();
                            let ts = if all || m == Method::Nearest && n <= 3 { TS::All } else if m == Method::Nearest { TS::Conc } else { TS::Rank1(vec![a]) };
                            self.add(Perm { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), ts, xs, perm });
                        }
                    }
                }
                for imp in imps(m, 1) {
                    let s = self.seed();
                    self.add(Affine { m, imp, spec: Spec::new(reg, &[lo + 1], GS::Conc, s), ts: TS::All, xs: vec![XS::Free], axis: 0, ab: None });
                    let s = self.seed();
                    self.add(Affine { m, imp, spec: Spec::new(reg, &[lo + 1], GS::Sym, s), ts: TS::All, xs: vec![XS::Free], axis: 0, ab: None });
                    for ab in [(1, 0), (8, -1000), (800_000, 3), (8, 8_000_000)] {
                        let s = self.seed();
                        self.add(Affine { m, imp, spec: Spec::new(reg, &[lo + 1], GS::Sym, s), ts: TS::All, xs: vec![XS::Free], axis: 0, ab: Some(ab) });
                    }
                }
                for n in 2..=max_conv(m) {
                    for imp in self.cheap_imps(m, n) {
                        if n >= 7 && imp != Imp::Conv && !self.thorough {
                            continue;
                        }
                        let axes: Vec<usize> = if n <= 4 || (!is_cubic(m) && n <= 6) { (0..n).collect() } else { vec![self.r.below(n as u64) as usize] };
                        for a in axes {
                            let dims = self.shape(m, n);
                            let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, Where::Any)).collect();
                            xs[a] = XS::Free;
                            let s = self.seed();
                            let ab = if n <= 3 { None } else { Some((self.r.range(1, 40), self.r.range(-90, 90))) };
                            let ts = if m == Method::Nearest { TS::Conc } else { TS::Rank1(vec![a]) };
                            self.add(Affine { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), ts, xs, axis: a, ab });
                        }
                    }
                }
            }
        }
    }

    fn linearity(&mut self) {
        for m in NDM {
            let lo = if is_cubic(m) { 4usize } else { 2 };
            for reg in [true, false] {
                for imp in imps(m, 1) {
                    for len in [lo, lo + 1, lo + 2] {
                        let s = self.seed();
                        let gs = if len == lo + 2 { GS::Conc } else { GS::Sym };
                        self.add(Linearity { m, imp, spec: Spec::new(reg, &[len], gs, s), tu: TS::All, tv: TS::All, xs: vec![XS::Free] });
                        let s = self.seed();
                        self.add(ConstTab { m, imp, spec: Spec::new(reg, &[len], GS::Sym, s), xs: vec![XS::Free] });
                    }
                    for low in [true, false] {
                        let s = self.seed();
                        self.add(ConstTab { m, imp, spec: Spec::new(reg, &[lo + 1], GS::Conc, s), xs: vec![XS::Far(low, 99_999, 100_001)] });
                        let s = self.seed();
                        self.add(Linearity { m, imp, spec: Spec::new(reg, &[lo + 1], GS::Conc, s), tu: TS::All, tv: TS::All, xs: vec![XS::Far(low, 101, 103)] });
                    }
                }
                for n in 2..=8usize {
                    for imp in self.cheap_imps(m, n) {
                        let a = self.r.below(n as u64) as usize;
                        let b = self.r.below(n as u64) as usize;
                        let dims = self.shape(m, n);
                        let mut xs: Vec<XS> = dims.iter().map(|d| self.at(*d, Where::Any)).collect();
                        xs[a] = XS::Free;
                        let s = self.seed();
                        let big = is_cubic(m) && n >= 5;
                        self.add(Linearity {
                            m, imp, spec: Spec::new(reg, &dims, GS::Conc, s),
                            tu: if n <= 2 { TS::All } else if big { TS::Conc } else { TS::Rank1(vec![a]) },
                            tv: if n <= 2 { TS::All } else if big { TS::Conc } else { TS::Rank1(vec![b]) },
                            xs: xs.clone(),
                        });
                        let s = self.seed();
                        let two = n <= 3;
                        let xs = if two { vec![XS::Free; n] } else { xs };
                        let dims = if two && is_cubic(m) { vec![4; n] } else { dims };
                        self.add(ConstTab { m, imp, spec: Spec::new(reg, &dims, GS::Conc, s), xs: if two { vec![XS::Free; n] } else { xs } });
                    }
                }
            }
        }
    }

    fn helpers(&mut self) {
        for n in (2..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 4099, 32770, 65539]) {
            self.add(Linspace { n, exp: 0 });
        }
        for e in [-60, -20, 20, 60] {
            for n in [2, 3, 5, 10, 33] {
                self.add(Linspace { n, exp: e });
            }
        }
        for lens in [
            vec![1], vec![2], vec![5], vec![64], vec![2, 3], vec![3, 2], vec![1, 4], vec![4, 1], vec![2, 3, 4], vec![4, 3, 2], vec![3, 1, 2], vec![2, 3, 2, 3],
            vec![1, 2, 1, 3, 2], vec![2, 2, 3, 2, 2], vec![2, 2, 2, 2, 2, 3], vec![2; 7], vec![2; 8], vec![17, 19],
        ] {
            self.add(Meshgrid { lens });
        }
        for reg in [true, false] {
            for m in NDM {
                let k = if is_cubic(m) { 4 } else { 2 };
                for dims in [vec![k + 1], vec![k, k + 2], vec![k + 2, k], vec![k, k + 1, k + 2], vec![k + 1, k, k, k + 1]] {
                    self.add(MeshRead { reg, m, dims });
                }
            }
        }
    }
}

/// one free observation among many fixed inside ones
pub struct BoundsMany {
    pub rec: bool,
    pub spec: Spec,
    pub nobs: usize,
    pub axis: usize,
    pub pos: usize,
}
impl Scen for BoundsMany {
    fn name(&self) -> String {
        format!("bounds {} {} {} observations, number {} on axis {} free", if self.rec { "recursive module" } else { "" }, self.spec.tag(), self.nobs, self.pos, self.axis)
    }
    fn run<T: Num>(&self, cx: &mut Ctx) {
        let n = self.spec.dims.len();
        let g = self.spec.grid::<T>(cx);
        let mut r = Rng::new(self.spec.seed ^ 5);
        let mut o: Vec<Vec<T>> = vec![];
        for a in 0..n {
            o.push(
                (0..self.nobs)
                    .map(|i| {
                        let xs = if a == self.axis && i == self.pos { XS::Free } else { XS::At(r.range(0, self.spec.dims[a] as i64 - 2), 4) };
                        self.spec.obs(cx, &g, a, &xs, &format!("o{i}_"))
                    })
                    .collect(),
            );
        }
        let obs: Vec<&[T]> = o.iter().map(|x| &x[..]).collect();
        let atol = T::of_rat(&Rat::frac(1, 64));
        let mut out = vec![true; n];
        let res = check_bounds(self.rec, &g, &obs, atol, &mut out);
        cx.check("bounds check succeeds", res.is_ok());
        let x = o[self.axis][self.pos];
        let (lo, hi) = (g.at(self.axis, 0), g.at(self.axis, self.spec.dims[self.axis] - 1));
        for a in 0..n {
            if a != self.axis {
                cx.check("other axes are not flagged", !out[a]);
            } else if out[a] {
                cx.check("not flagged when every observation is inside", !(x >= lo && x <= hi));
            } else {
                cx.check("flagged when one observation is outside by more than the tolerance", !(x > hi + atol || x < lo - atol));
            }
        }
    }
}

pub fn scenarios(prop: &str, thorough: bool, seed: u64) -> Scens {
    let mut b = B { v: vec![], r: Rng::new(seed), thorough };
    match prop {
        "C01" => b.values(&[Method::Linear], Where::Any),
        "C02" => b.values(&CUB, Where::In),
        "C03" => b.values(&CUB, Where::Out),
        "C04" => b.continuity(),
        "C05" => b.polynomials(),
        "C06" => b.nearest(),
        "C07" => b.ones(&[One::Left, One::Right, One::Nearest]),
        "C08" => b.ones(&[One::Linear, One::Hold]),
        "C09" => b.nodes(),
        "C10" => b.locality(),
        "C11" => b.reg_rect(),
        "C12" => b.equivalence(),
        "C13" => b.batches(),
        "C16" => b.bounds(),
        "C17" => b.ranges(),
        "C18" => b.relabel(),
        "C19" => b.linearity(),
        "C20" => b.helpers(),
        _ => panic!("unknown property {prop}"),
    }
    b.v
}
