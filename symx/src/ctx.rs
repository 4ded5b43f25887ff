//! Harness context: the same generic harness runs symbolically (T = Sym) and natively (T = f64 / f32).
use symcore::big::Rat;
use symcore::smt::Res;
use symcore::sym::{Abort, Lit, Op, Sym, V, abort, eng};
use num_traits::{Float, NumCast};
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};

pub trait Num: Float + std::fmt::Debug + Default + Send + 'static {
    const SYM: bool;
    fn of_rat(r: &Rat) -> Self;
    fn of_sym(s: Sym) -> Self;
    fn sym(self) -> Sym;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}
impl Num for Sym {
    const SYM: bool = true;
    fn of_rat(r: &Rat) -> Sym {
        Sym::from_rat(r.clone())
    }
    fn of_sym(s: Sym) -> Sym {
        s
    }
    fn sym(self) -> Sym {
        self
    }
    fn f(self) -> f64 {
        unreachable!()
    }
    fn bits(self) -> u64 {
        unreachable!()
    }
}
impl Num for f64 {
    const SYM: bool = false;
    fn of_rat(r: &Rat) -> f64 {
        r.to_f64()
    }
    fn of_sym(_: Sym) -> f64 {
        unreachable!()
    }
    fn sym(self) -> Sym {
        unreachable!()
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Num for f32 {
    const SYM: bool = false;
    fn of_rat(r: &Rat) -> f32 {
        r.to_f64() as f32
    }
    fn of_sym(_: Sym) -> f32 {
        unreachable!()
    }
    fn sym(self) -> Sym {
        unreachable!()
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}

#[derive(Clone, Debug)]
pub struct Cand {
    pub label: String,
    pub model: Vec<(String, Rat)>,
    /// tried natively without the solver having shown a real-arithmetic difference
    pub fp_only: bool,
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub label: String,
    pub detail: String,
}

pub struct Ctx {
    pub native: Option<HashMap<String, f64>>,
    pub fails: Vec<Fail>,
    pub assume_failed: bool,
    pub cands: Vec<Cand>,
    pub inconclusive: Vec<String>,
    pub funcs: BTreeSet<String>,
    pub rng: u64,
    pub eps: f64, // unit roundoff class of the native type
    pub sample: Option<String>,
    pub reached: BTreeSet<String>,
    /// magnitude of the table values relative to the usual ones; tolerances are multiplied by it
    pub vscale: f64,
}

/// Vacuity mode: every assertion is replaced by one that must fail, so a scenario that does not report a
/// (natively confirmed) violation here asserts nothing.
pub static CANARY: AtomicBool = AtomicBool::new(false);
fn canary() -> bool {
    CANARY.load(Ordering::Relaxed)
}

/// Tolerances (relative to the `scale` the harness passes)
const SYM_TOL: f64 = 2e-8;
const NAT_TOL_F64: f64 = 2e-10;
const NAT_TOL_F32: f64 = 1e-4;

impl Ctx {
    pub fn new_sym(seed: u64) -> Ctx {
        Ctx {
            native: None,
            fails: vec![],
            assume_failed: false,
            cands: vec![],
            inconclusive: vec![],
            funcs: BTreeSet::new(),
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9abc_def1,
            eps: NAT_TOL_F64,
            sample: None,
            reached: BTreeSet::new(),
            vscale: 1.0,
        }
    }
    pub fn new_native(vals: HashMap<String, f64>, f32_: bool) -> Ctx {
        let mut c = Ctx::new_sym(1);
        c.native = Some(vals);
        c.eps = if f32_ { NAT_TOL_F32 } else { NAT_TOL_F64 };
        c
    }
    pub fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    /// Fresh input with inclusive bounds.
    pub fn var<T: Num>(&mut self, name: &str, lo: &Rat, hi: &Rat) -> T {
        match &self.native {
            None => T::of_sym(eng(|e| e.new_var(name, lo.clone(), hi.clone()))),
            Some(m) => {
                let v = m.get(name).copied().unwrap_or(lo.to_f64());
                <T as NumCast>::from(v).unwrap()
            }
        }
    }
    pub fn vari<T: Num>(&mut self, name: &str, lo: i64, hi: i64) -> T {
        self.var(name, &Rat::int(lo), &Rat::int(hi))
    }
    fn diff(a: Sym, b: Sym) -> Option<(u32, u32)> {
        match eng(|e| (e.get(a), e.get(b))) {
            (V::Num { n: n1, d: d1 }, V::Num { n: n2, d: d2 }) => {
                Some(eng(|e| e.add_num((n1, d1), &Rat::int(-1), (n2, d2))))
            }
            _ => None,
        }
    }
    fn assume_op<T: Num>(&mut self, a: T, b: T, op: Op) {
        if T::SYM {
            let (n, d) = Self::diff(a.sym(), b.sym()).expect("assumption on special value");
            let m = if matches!(op, Op::Eq | Op::Ne) { n } else { eng(|e| e.signed_num((n, d))) };
            eng(|e| e.assume(m, op));
        } else {
            let ok = match op {
                Op::Lt => a < b,
                Op::Le => a <= b,
                Op::Eq => a == b,
                Op::Ne => a != b,
            };
            if !ok {
                self.assume_failed = true;
                abort(Abort::Infeasible);
            }
        }
    }
    pub fn assume_lt<T: Num>(&mut self, a: T, b: T) {
        self.assume_op(a, b, Op::Lt)
    }
    pub fn assume_le<T: Num>(&mut self, a: T, b: T) {
        self.assume_op(a, b, Op::Le)
    }
    pub fn assume_ne<T: Num>(&mut self, a: T, b: T) {
        self.assume_op(a, b, Op::Ne)
    }
    /// the value with input `of` replaced by r (symbolic runs only)
    pub fn limit<T: Num>(&mut self, s: T, of: T, r: &Rat) -> T {
        T::of_sym(eng(|e| e.limit(s.sym(), of.sym(), r)))
    }
    pub fn deriv<T: Num>(&mut self, s: T, of: T) -> T {
        T::of_sym(eng(|e| e.deriv(s.sym(), of.sym())))
    }
    pub fn reach(&mut self, l: impl Into<String>) {
        self.reached.insert(l.into());
    }

    // ---------- candidate construction ----------
    fn push_cand(&mut self, label: &str, model: &[Rat], fp_only: bool) {
        let m = eng(|e| e.vars.iter().map(|v| v.name.clone()).zip(model.iter().cloned()).collect());
        self.cands.push(Cand { label: label.to_string(), model: m, fp_only });
    }
    /// Models of the path condition: one with margins (away from path boundaries) if there is one, one plain;
    /// unconstrained inputs randomised.
    pub fn path_models(&mut self, count: usize) -> Vec<Vec<Rat>> {
        let mut base = vec![];
        let (free, m1, m2, m3) = eng(|e| {
            // variables that occur in the path condition
            let mut pcv = BTreeSet::new();
            let (_, _, vars) = e.encode(&e.pc.clone(), false, None, false, "");
            pcv.extend(vars);
            let saved = e.pc.clone();
            // margin version
            // (relative to the range of the inputs it is about, when that is far from 1)
            let range = pcv.iter().map(|v| e.vars[*v as usize].hi.sub(&e.vars[*v as usize].lo)).max_by(|a, b| a.to_f64().total_cmp(&b.to_f64()));
            let c = match range {
                Some(r) if r.to_f64() > 1048576.0 || r.to_f64() < 1.0 / 64.0 => r.mul(&Rat::frac(1, 512)),
                _ => Rat::frac(1, 64),
            };
            let c = e.lin_const(c);
            let mut mp = vec![];
            for (l, op) in saved.clone() {
                match op {
                    Op::Lt | Op::Le => {
                        let (n, _) = e.add_num((l, 0), &Rat::one(), (c, 0));
                        mp.push((n, Op::Le));
                    }
                    _ => mp.push((l, op)),
                }
            }
            e.pc = mp;
            let m1 = e.path_model();
            e.pc = saved;
            let m2 = e.path_model();
            // dyadic version: every variable of the path condition a multiple of 1/64
            let (mut s, logic, vars) = e.encode(&[], true, None, true, "");
            for v in &pcv {
                s += &format!("(declare-const i{v} Int)\n(assert (= v{v} (/ (to_real i{v}) 64.0)))\n");
            }
            let lg = if logic == "QF_LRA" { "QF_LIRA" } else { "QF_NIRA" };
            let (r, m) = e.run(&s, lg, &vars, true, 3000);
            let m3 = if r == Res::Sat {
                let mut out: Vec<Rat> = e.vars.iter().map(|v| v.lo.clone()).collect();
                for (v, x) in m {
                    out[v as usize] = x;
                }
                Some(out)
            } else {
                None
            };
            let free: Vec<(usize, Rat, Rat)> = e
                .vars
                .iter()
                .enumerate()
                .filter(|(i, _)| !pcv.contains(&(*i as u32)))
                .map(|(i, v)| (i, v.lo.clone(), v.hi.clone()))
                .collect();
            (free, m1, m2, m3)
        });
        for m in [m1, m3, m2].into_iter().flatten() {
            base.push(m);
        }
        let mut out = vec![];
        if base.is_empty() {
            return out;
        }
        for i in 0..count {
            let mut m = base[i % base.len()].clone();
            for (ix, lo, hi) in &free {
                let w = hi.sub(lo);
                let k = (self.rnd() % 65) as i64;
                m[*ix] = lo.add(&w.mul(&Rat::frac(k, 64)));
            }
            out.push(m);
        }
        out
    }
    fn eval_at(n: u32, d: u32, m: &[Rat]) -> Option<Rat> {
        eng(|e| {
            let mut c = HashMap::new();
            let f = |v: u32| m[v as usize].clone();
            let x = e.eval_lin(n, &f, &mut c);
            let mut y = Rat::one();
            for (l, p) in e.dens[d as usize].clone() {
                for _ in 0..p {
                    y = y.mul(&e.eval_lin(l, &f, &mut c));
                }
            }
            if y.is_zero() { None } else { Some(x.div(&y)) }
        })
    }
    fn note_sample(&mut self, label: &str) {
        if self.sample.is_none() {
            let s = eng(|e| {
                let (s, l, _) = e.encode(&[], true, None, false, "");
                format!("{label}; path condition with {} literals ({l}): {}", e.pc.len(), s.chars().take(600).collect::<String>())
            });
            self.sample = Some(s);
        }
    }
    fn stop(&mut self) -> ! {
        abort(Abort::Infeasible)
    }
    fn give_up(&mut self, label: &str) -> ! {
        eng(|e| e.stats.inconclusive += 1);
        self.inconclusive.push(label.to_string());
        self.stop()
    }
    fn native_fail(&mut self, label: &str, detail: String) {
        self.fails.push(Fail { label: label.to_string(), detail });
    }

    /// A condition that is already concrete on this path.
    pub fn check(&mut self, label: &str, ok: bool) {
        let ok = ok != canary();
        if self.native.is_some() {
            if !ok {
                self.native_fail(label, "condition false".into());
            }
            return;
        }
        eng(|e| e.stats.asserts += 1);
        if ok {
            eng(|e| {
                e.stats.discharged += 1;
                e.stats.asserts_trivial += 1
            });
            return;
        }
        self.fail_here(label)
    }
    /// The current path itself is the violation (wrong result kind, panic, poison reached).
    pub fn fail_here(&mut self, label: &str) -> ! {
        let ms = self.path_models(6);
        if ms.is_empty() {
            self.give_up(label);
        }
        for m in ms {
            self.push_cand(label, &m, false);
        }
        self.stop()
    }

    /// a == b up to rounding; `scale` is the magnitude of the quantities involved
    pub fn check_eq<T: Num>(&mut self, label: &str, a: T, b: T, scale: f64) {
        let scale = scale * self.vscale;
        let b = if canary() { b + T::of_rat(&Rat::from_f64(scale.abs() * 0.5 + self.vscale).unwrap()) } else { b };
        if !T::SYM {
            let (x, y) = (a.f(), b.f());
            let tol = self.eps * (scale.abs() + x.abs().min(y.abs()));
            if !((x - y).abs() <= tol) {
                self.native_fail(label, format!("got {x:?} expected {y:?} (tolerance {tol:e})"));
            }
            return;
        }
        let (a, b) = (a.sym(), b.sym());
        eng(|e| e.stats.asserts += 1);
        let Some((n, d)) = Self::diff(a, b) else {
            // NaN or infinity on one side
            if eng(|e| e.get(a) == e.get(b) && e.get(a) != V::Nan) {
                return;
            }
            self.fail_here(label)
        };
        if let Some(c) = eng(|e| if d == 0 { e.is_const(n).cloned() } else { None }) {
            if c.is_zero() {
                eng(|e| {
                    e.stats.discharged += 1;
                    e.stats.asserts_trivial += 1
                });
                self.note_sample(label);
                return;
            }
            if c.abs().to_f64() <= SYM_TOL * scale {
                eng(|e| e.stats.discharged_tol += 1);
                return;
            }
            self.fail_here(label)
        }
        self.note_sample(label);
        // 1. identity for all inputs, path condition not needed
        let r1 = eng(|e| {
            e.stats.assert_queries += 1;
            let (s, logic, vars) = e.encode(&[(n, Op::Ne)], false, None, false, "");
            e.run(&s, logic, &vars, false, 30000).0
        });
        if r1 == Res::Unsat {
            eng(|e| e.stats.discharged += 1);
            return;
        }
        // 2. the solver's verdict under the path condition, beyond tolerance
        let tol = Rat::from_f64(SYM_TOL * scale).unwrap();
        let (m, dpos) = eng(|e| {
            let m = e.signed_num((n, d));
            let mut dp = e.lin_const(Rat::one());
            for (l, p) in e.dens[d as usize].clone() {
                for _ in 0..p {
                    dp = e.lin_mul(dp, l);
                }
            }
            let q = e.signed_num((dp, d));
            (m, q)
        });
        let (up, dn) = eng(|e| {
            let t = e.lin_mul_const(dpos, &tol);
            let (u, _) = e.add_num((t, 0), &Rat::int(-1), (m, 0)); // tol*D - m < 0
            let (v, _) = e.add_num((t, 0), &Rat::int(1), (m, 0)); // tol*D + m < 0
            ((u, Op::Lt), (v, Op::Lt))
        });
        let mut hits: Vec<(f64, Vec<Rat>)> = vec![];
        let mut verdict = Res::Unknown;
        for (i, to) in [2000, 25000].into_iter().enumerate() {
            let (r, model) = self.solve_disj(&[up, dn], to);
            match r {
                Res::Unsat => {
                    eng(|e| e.stats.discharged_tol += 1);
                    return;
                }
                Res::Sat => hits.push((0.0, model)),
                Res::Unknown => {}
            }
            verdict = r;
            if i == 0 {
                // concrete witnesses on this path (any is as good as the solver's)
                for m in &self.path_models(12) {
                    if let Some(v) = Self::eval_at(n, d, m) {
                        if v.abs().cmp(&tol).is_gt() {
                            hits.push((v.abs().to_f64(), m.clone()));
                        }
                    }
                }
            }
            if !hits.is_empty() {
                break;
            }
        }
        if hits.is_empty() {
            if std::env::var("SYMX_LOG").is_ok() {
                let (s, l, _) = eng(|e| e.encode(&[], true, Some(&[up, dn]), false, ""));
                eprintln!("undecided {label} {l} {verdict:?}: {} bytes; pc {}", s.len(), eng(|e| e.pc.len()));
            }
            self.give_up(label)
        }
        eng(|e| e.stats.witnesses += 1);
        hits.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        for (_, m) in hits.into_iter().take(5) {
            self.push_cand(label, &m, false);
        }
        self.stop()
    }
    fn solve_disj(&mut self, d: &[Lit], timeout: u64) -> (Res, Vec<Rat>) {
        eng(|e| {
            e.stats.assert_queries += 1;
            let (s, logic, vars) = e.encode(&[], true, Some(d), false, "");
            let (r, m) = e.run(&s, logic, &vars, true, timeout);
            let mut out: Vec<Rat> = e.vars.iter().map(|v| v.lo.clone()).collect();
            if r == Res::Sat {
                // the sliced model is completed by a full path model for the rest
                if let Some(pm) = e.path_model() {
                    out = pm;
                }
                for (v, x) in m {
                    out[v as usize] = x;
                }
            }
            (r, out)
        })
    }
    /// a <= b up to rounding
    pub fn check_le<T: Num>(&mut self, label: &str, a: T, b: T, scale: f64) {
        let scale = scale * self.vscale;
        let a = if canary() { b + T::of_rat(&Rat::from_f64(scale.abs() * 0.5 + self.vscale).unwrap()) } else { a };
        if !T::SYM {
            let (x, y) = (a.f(), b.f());
            let tol = self.eps * (scale.abs() + x.abs().min(y.abs()));
            if !(x <= y + tol) {
                self.native_fail(label, format!("{x:?} should be <= {y:?} (tolerance {tol:e})"));
            }
            return;
        }
        let (a, b) = (a.sym(), b.sym());
        eng(|e| e.stats.asserts += 1);
        let Some((n, d)) = Self::diff(a, b) else { self.fail_here(label) };
        self.note_sample(label);
        let (m, dpos) = eng(|e| {
            let m = e.signed_num((n, d));
            let mut dp = e.lin_const(Rat::one());
            for (l, p) in e.dens[d as usize].clone() {
                for _ in 0..p {
                    dp = e.lin_mul(dp, l);
                }
            }
            let q = e.signed_num((dp, d));
            (m, q)
        });
        // violation: m > 0
        let neg = eng(|e| {
            let z = e.lin_const(Rat::zero());
            let (x, _) = e.add_num((z, 0), &Rat::int(-1), (m, 0));
            (x, Op::Lt)
        });
        let (r, _) = self.solve_disj(&[neg], 30000);
        if r == Res::Unsat {
            eng(|e| e.stats.discharged += 1);
            return;
        }
        let tol = Rat::from_f64(SYM_TOL * scale).unwrap();
        let up = eng(|e| {
            let t = e.lin_mul_const(dpos, &tol);
            let (u, _) = e.add_num((t, 0), &Rat::int(-1), (m, 0));
            (u, Op::Lt)
        });
        let mut hits = vec![];
        for m in self.path_models(12) {
            if let Some(v) = Self::eval_at(n, d, &m) {
                if v.cmp(&tol).is_gt() {
                    hits.push(m);
                }
            }
        }
        if hits.is_empty() {
            let (r, model) = self.solve_disj(&[up], 20000);
            match r {
                Res::Unsat => {
                    eng(|e| e.stats.discharged_tol += 1);
                    return;
                }
                Res::Sat => hits.push(model),
                Res::Unknown => self.give_up(label),
            }
        }
        for m in hits.into_iter().take(4) {
            self.push_cand(label, &m, false);
        }
        self.stop()
    }
    /// a and b are the same bits (NaN equals NaN)
    pub fn check_bits<T: Num>(&mut self, label: &str, a: T, b: T) {
        let b = if canary() { b + T::one() } else { b };
        if !T::SYM {
            if a.bits() != b.bits() && !(a.is_nan() && b.is_nan()) {
                self.native_fail(label, format!("got {:?} expected {:?} bit for bit", a.f(), b.f()));
            }
            return;
        }
        let (a, b) = (a.sym(), b.sym());
        let fp_on = eng(|e| e.fp_on);
        assert!(fp_on, "bit-for-bit claims need floating-point terms");
        let same = eng(|e| e.get_fp(a) == e.get_fp(b));
        let nd = Self::diff(a, b);
        if let Some((n, d)) = nd {
            // real-arithmetic difference first (this is the solver's part)
            let zero = eng(|e| d == 0 && e.is_const(n).is_some_and(|c| c.is_zero()));
            if !zero {
                self.check_eq_exact(label, n, d);
            } else {
                eng(|e| {
                    e.stats.asserts += 1;
                    e.stats.discharged += 1;
                    e.stats.asserts_trivial += 1
                });
                self.note_sample(label);
            }
        } else {
            eng(|e| e.stats.asserts += 1);
            if eng(|e| e.get(a) != e.get(b)) {
                self.fail_here(label)
            }
            eng(|e| e.stats.discharged += 1);
        }
        if !same {
            // different operation trees: look for a rounding difference natively
            for m in self.path_models(12) {
                let mm = self.roughen(&m);
                self.push_cand(label, &mm, true);
                self.push_cand(label, &m, true);
            }
        }
    }
    fn roughen(&mut self, m: &[Rat]) -> Vec<Rat> {
        let b: Vec<(Rat, Rat)> = eng(|e| e.vars.iter().map(|v| (v.lo.clone(), v.hi.clone())).collect());
        m.iter()
            .enumerate()
            .map(|(i, r)| {
                let u = (self.rnd() % 1000) as i64 - 500;
                let x = r.add(&r.abs().add(&Rat::frac(1, 8)).mul(&Rat::frac(u, 50077)));
                if x.cmp(&b[i].0).is_lt() || x.cmp(&b[i].1).is_gt() { r.clone() } else { x }
            })
            .collect()
    }
    fn check_eq_exact(&mut self, label: &str, n: u32, d: u32) {
        eng(|e| {
            e.stats.asserts += 1;
            e.stats.assert_queries += 1;
        });
        self.note_sample(label);
        let r1 = eng(|e| {
            let (s, logic, vars) = e.encode(&[(n, Op::Ne)], false, None, false, "");
            e.run(&s, logic, &vars, false, 20000).0
        });
        if r1 == Res::Unsat {
            eng(|e| e.stats.discharged += 1);
            return;
        }
        let mut hits = vec![];
        for m in self.path_models(12) {
            if let Some(v) = Self::eval_at(n, d, &m) {
                if !v.is_zero() {
                    hits.push(m);
                }
            }
        }
        if hits.is_empty() {
            let (r, model) = self.solve_disj(&[(n, Op::Ne)], 20000);
            match r {
                Res::Unsat => {
                    eng(|e| e.stats.discharged += 1);
                    return;
                }
                Res::Sat => hits.push(model),
                Res::Unknown => self.give_up(label),
            }
        }
        for m in hits.into_iter().take(6) {
            self.push_cand(label, &m, false);
        }
        self.stop()
    }
}
