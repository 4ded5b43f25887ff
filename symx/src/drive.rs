//! Path exploration of scenarios, native replay of candidates, reporting.
use symcore::big::Rat;
use crate::ctx::{Cand, Ctx, Fail, Num};
use symcore::sym::{Abort, Stats, Sym, eng};
use std::collections::{BTreeSet, HashMap};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub trait Scen: Send + Sync {
    fn name(&self) -> String;
    /// needs the tree of floating-point operations (bit-for-bit claims)
    fn fp(&self) -> bool {
        false
    }
    /// confirm candidates in f64 only (limits are measured over distances too small for f32)
    fn f64_only(&self) -> bool {
        false
    }
    fn run<T: Num>(&self, cx: &mut Ctx);
}
pub trait DynScen: Send + Sync {
    fn name(&self) -> String;
    fn fp(&self) -> bool;
    fn f64_only(&self) -> bool;
    fn run_sym(&self, cx: &mut Ctx);
    fn run_f64(&self, cx: &mut Ctx);
    fn run_f32(&self, cx: &mut Ctx);
}
impl<S: Scen> DynScen for S {
    fn name(&self) -> String {
        Scen::name(self)
    }
    fn fp(&self) -> bool {
        Scen::fp(self)
    }
    fn f64_only(&self) -> bool {
        Scen::f64_only(self)
    }
    fn run_sym(&self, cx: &mut Ctx) {
        self.run::<Sym>(cx)
    }
    fn run_f64(&self, cx: &mut Ctx) {
        self.run::<f64>(cx)
    }
    fn run_f32(&self, cx: &mut Ctx) {
        self.run::<f32>(cx)
    }
}
pub type Scens = Vec<Box<dyn DynScen>>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub label: String,
    pub detail: String,
    pub ty: &'static str,
    pub inputs: Vec<(String, f64)>,
}
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub scenario: String,
    pub stats: Stats,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub wall_s: f64,
    pub violation: Option<Violation>,
    pub problems: Vec<String>,
    pub funcs: BTreeSet<String>,
    pub reached: BTreeSet<String>,
    pub sample: Option<String>,
    pub vars: usize,
    pub native_runs: u64,
    pub fp_mismatch: u64,
    /// models of explored paths run natively: assertions held / did not
    pub validated: u64,
    pub native_bad: Vec<String>,
    /// a budget ended the exploration before every path was seen
    pub partial: bool,
}

/// Run natively on given inputs. Ok(fails) or Err(()) when the inputs violate an assumption.
pub fn native(sc: &dyn DynScen, inputs: &HashMap<String, f64>, f32_: bool) -> Result<(Vec<Fail>, Option<String>), ()> {
    let mut cx = Ctx::new_native(inputs.clone(), f32_);
    let r = catch_unwind(AssertUnwindSafe(|| if f32_ { sc.run_f32(&mut cx) } else { sc.run_f64(&mut cx) }));
    match r {
        Ok(()) => Ok((cx.fails, None)),
        Err(p) => {
            if let Some(_a) = p.downcast_ref::<Abort>() {
                if cx.assume_failed {
                    return Err(());
                }
                return Ok((cx.fails, None));
            }
            Ok((cx.fails, Some(panic_text(&*p))))
        }
    }
}
pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn confirm(sc: &dyn DynScen, c: &Cand, rep: &mut Report) -> Option<Violation> {
    let vals: HashMap<String, f64> = c.model.iter().map(|(n, r): &(String, Rat)| (n.clone(), r.to_f64())).collect();
    for (f32_, ty) in [(false, "f64"), (true, "f32")] {
        if f32_ && sc.f64_only() {
            continue;
        }
        let vals: HashMap<String, f64> =
            if f32_ { vals.iter().map(|(k, v)| (k.clone(), *v as f32 as f64)).collect() } else { vals.clone() };
        rep.native_runs += 1;
        if let Ok((fails, pan)) = native(sc, &vals, f32_) {
            let mut inputs: Vec<(String, f64)> = c.model.iter().map(|(n, _)| (n.clone(), vals[n])).collect();
            inputs.truncate(20000);
            if let Some(p) = pan {
                return Some(Violation { scenario: sc.name(), label: "panic".into(), detail: p, ty, inputs });
            }
            if let Some(f) = fails.first() {
                return Some(Violation { scenario: sc.name(), label: f.label.clone(), detail: f.detail.clone(), ty, inputs });
            }
        }
    }
    None
}

pub fn explore(sc: &dyn DynScen, seed: u64, deadline: Instant, cap: Duration, max_paths: u64) -> Report {
    let cap = Instant::now() + cap;
    let t0 = Instant::now();
    let mut rep = Report { scenario: sc.name(), ..Default::default() };
    let q0 = eng(|e| {
        e.fp_on = sc.fp();
        e.begin_scenario();
        e.smt.stats.clone()
    });
    let mut cx = Ctx::new_sym(seed);
    loop {
        eng(|e| {
            e.begin_path();
            e.stats.paths += 1;
        });
        let r = catch_unwind(AssertUnwindSafe(|| sc.run_sym(&mut cx)));
        if let Err(p) = r {
            match p.downcast_ref::<Abort>() {
                Some(Abort::Infeasible) => {}
                Some(Abort::Unsupported(s)) => rep.problems.push(format!("unsupported operation on a symbolic value: {s}")),
                Some(Abort::Limit(s)) => rep.problems.push(format!("limit: {s}")),
                None => {
                    // the code under test panicked on this path
                    let txt = panic_text(&*p);
                    if std::env::var("SYMX_LOG").is_ok() {
                        eprintln!("panic on path in {}: {txt}", rep.scenario);
                    }
                    let r2 = catch_unwind(AssertUnwindSafe(|| cx.fail_here(&format!("panic: {txt}"))));
                    let _ = r2;
                }
            }
        }
        rep.vars = rep.vars.max(eng(|e| e.vars.len()));
        let cands = std::mem::take(&mut cx.cands);
        if !cands.is_empty() {
            let mut seen_real = false;
            for c in &cands {
                seen_real |= !c.fp_only;
                if let Some(v) = confirm(sc, c, &mut rep) {
                    rep.violation = Some(v);
                    break;
                }
            }
            if rep.violation.is_some() {
                break;
            }
            if seen_real {
                rep.problems.push(format!(
                    "candidate for `{}` not reproduced natively: {:?}",
                    cands[0].label,
                    cands[0].model.iter().filter(|(_, r)| !r.is_zero()).take(12).map(|(n, r)| format!("{n}={}", r.to_f64())).collect::<Vec<_>>()
                ));
            } else {
                rep.fp_mismatch += 1;
            }
        }
        let np = eng(|e| e.stats.paths);
        if matches!(np, 1 | 4 | 16 | 64 | 256) && cands.is_empty() && !crate::ctx::CANARY.load(Ordering::Relaxed) {
            // an input of this path through the compiled code: the engine and the implementation must agree
            let m = cx.path_models(1);
            if let Some(m) = m.first() {
                let vals: HashMap<String, f64> = eng(|e| e.vars.iter().zip(m).map(|(v, r)| (v.name.clone(), r.to_f64())).collect());
                match native(sc, &vals, false) {
                    Err(()) => {}
                    Ok((f, None)) if f.is_empty() => rep.validated += 1,
                    Ok((f, p)) => rep.native_bad.push(format!("{p:?} {:?} {:?}", f.first(), vals.iter().take(6).collect::<Vec<_>>())),
                }
            }
        }
        for l in std::mem::take(&mut cx.inconclusive) {
            rep.problems.push(format!("solver undecided: {l}"));
        }
        if rep.problems.len() > 3 {
            break;
        }
        if !eng(|e| e.next_path()) {
            break;
        }
        let now = Instant::now();
        if now > deadline || now > cap || eng(|e| e.stats.paths) >= max_paths {
            // honest about it: reported as partly explored, not as a failure of the check
            rep.partial = true;
            break;
        }
    }
    let (s, q) = eng(|e| (e.stats.clone(), e.smt.stats.clone()));
    rep.stats = s;
    rep.queries = q.queries - q0.queries;
    rep.sat = q.sat - q0.sat;
    rep.unsat = q.unsat - q0.unsat;
    rep.unknown = q.unknown - q0.unknown;
    rep.solver_s = (q.time - q0.time).as_secs_f64();
    rep.wall_s = t0.elapsed().as_secs_f64();
    rep.funcs = cx.funcs.clone();
    rep.reached = cx.reached.clone();
    rep.sample = cx.sample.clone();
    if rep.violation.is_none() && rep.problems.is_empty() && rep.stats.asserts == 0 {
        rep.problems.push("vacuous: no assertion was reached".into());
    }
    rep
}

pub fn run_all(scens: &Scens, order: &[usize], seed: u64, budget: Duration, cap: Duration, threads: usize, keep_going: bool) -> Vec<Report> {
    std::panic::set_hook(Box::new(|_| {}));
    let n = order.len();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let out = Mutex::new(Vec::new());
    let deadline = Instant::now() + budget;
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                        return;
                    }
                    let i = order[i];
                    if std::env::var("SYMX_LOG").is_ok() {
                        eprintln!("start {}", scens[i].name());
                    }
                    let r = explore(&*scens[i], seed.wrapping_add(i as u64), deadline, cap, 200_000);
                    if std::env::var("SYMX_LOG").is_ok() {
                        eprintln!(
                            "done {} paths={} asserts={} ok={} tol={} q={} solver={:.2}s wall={:.2}s fpm={} {:?} {:?}",
                            r.scenario, r.stats.paths, r.stats.asserts, r.stats.discharged, r.stats.discharged_tol, r.queries, r.solver_s, r.wall_s,
                            r.fp_mismatch, r.problems, r.violation.as_ref().map(|v| (&v.label, &v.detail))
                        );
                    }
                    if r.violation.is_some() && !keep_going {
                        stop.store(true, Ordering::SeqCst);
                    }
                    out.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
