//! Symbolic scalar: a `num_traits::Float` whose values are terms.
//!
//! Every value carries (1) an exact real-arithmetic term, kept as a fraction of linear forms over product atoms,
//! and (2) the hash-consed tree of floating-point operations that produced it, for "bit for bit" claims.
//! Comparisons ask the solver which outcomes the path condition allows and fork the path when both are possible.
use crate::big::{Int, Rat};
use crate::smt::{Res, Smt};
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::num::FpCategory;

pub type LinId = u32;
pub type AtomId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub t: Vec<(AtomId, Rat)>,
    pub c: Rat,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(u32),
    Mul(LinId, LinId),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Num { n: LinId, d: u32 },
    Nan,
    Inf(bool), // true = negative
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fp {
    Var(u32),
    Const(u32),
    Op(u8, u32, u32, u32),
    Special(u8),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Lt,
    Le,
    Eq,
    Ne,
}
pub type Lit = (LinId, Op);

#[derive(Clone, Debug)]
pub enum Dec {
    /// outcome, whether the other outcome is still to be explored, whether the path condition forces the outcome
    Bool(bool, bool, bool),
    /// floor candidate k: outcome (inside the cell k or not), other still open
    Cell(Int, bool, bool),
}

pub struct VarInfo {
    pub name: String,
    pub lo: Rat,
    pub hi: Rat,
}

/// Payload used to leave a path early.
#[derive(Debug, Clone)]
pub enum Abort {
    Infeasible,
    Unsupported(String),
    Limit(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub forced: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub assert_queries: u64,
    pub discharged: u64,
    pub discharged_tol: u64,
    pub inconclusive: u64,
    pub witnesses: u64,
    pub ops: u64,
    pub div_zero_paths: u64,
    pub max_query_bytes: u64,
    pub concretised: u64,
}

pub struct Eng {
    pub lins: Vec<Lin>,
    lin_map: HashMap<Lin, LinId>,
    pub atoms: Vec<Atom>,
    atom_map: HashMap<Atom, AtomId>,
    pub dens: Vec<Vec<(LinId, u32)>>,
    den_map: HashMap<Vec<(LinId, u32)>, u32>,
    pub vals: Vec<(V, u32)>,
    pub fps: Vec<Fp>,
    fp_map: HashMap<Fp, u32>,
    fp_consts: HashMap<Rat, u32>,
    pub fp_on: bool,
    pub vars: Vec<VarInfo>,
    pub var_cursor: usize,
    pub pc: Vec<Lit>,
    known: HashMap<LinId, Vec<(Op, bool)>>,
    pub decs: Vec<Dec>,
    pub pos: usize,
    pub smt: Smt,
    pub stats: Stats,
    den_sign: HashMap<LinId, i32>,
    pub max_cells: u32,
    pub max_forks: usize,
    pub active: bool,
}

thread_local! {
    pub static ENG: RefCell<Eng> = RefCell::new(Eng::new());
}
pub fn eng<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    ENG.with(|e| f(&mut e.borrow_mut()))
}
pub fn abort(a: Abort) -> ! {
    std::panic::panic_any(a)
}

impl Eng {
    pub fn new() -> Eng {
        let mut e = Eng {
            lins: vec![],
            lin_map: HashMap::new(),
            atoms: vec![],
            atom_map: HashMap::new(),
            dens: vec![],
            den_map: HashMap::new(),
            vals: vec![],
            fps: vec![],
            fp_map: HashMap::new(),
            fp_consts: HashMap::new(),
            fp_on: false,
            vars: vec![],
            var_cursor: 0,
            pc: vec![],
            known: HashMap::new(),
            decs: vec![],
            pos: 0,
            smt: Smt::new(),
            stats: Stats::default(),
            den_sign: HashMap::new(),
            max_cells: 2000,
            max_forks: 200000,
            active: false,
        };
        e.reset_tables();
        e
    }
    fn reset_tables(&mut self) {
        self.lins.clear();
        self.lin_map.clear();
        self.atoms.clear();
        self.atom_map.clear();
        self.dens.clear();
        self.den_map.clear();
        self.vals.clear();
        self.fps.clear();
        self.fp_map.clear();
        self.fp_consts.clear();
        self.vars.clear();
        self.den_id(vec![]);
        self.lin_const(Rat::zero());
    }
    /// Start a new scenario.
    pub fn begin_scenario(&mut self) {
        self.reset_tables();
        self.decs.clear();
        self.stats = Stats::default();
        self.active = true;
        self.begin_path();
    }
    /// Start the next path of the scenario, replaying `decs`.
    pub fn begin_path(&mut self) {
        // tables only grow inside a scenario; drop them when they get large (ids are per path anyway)
        self.reset_tables();
        self.var_cursor = 0;
        self.pc.clear();
        self.known.clear();
        self.den_sign.clear();
        self.pos = 0;
    }
    /// Backtrack to the deepest open decision. False when the exploration is complete.
    pub fn next_path(&mut self) -> bool {
        while let Some(d) = self.decs.pop() {
            match d {
                Dec::Bool(o, true, _) => {
                    self.decs.push(Dec::Bool(!o, false, false));
                    return true;
                }
                Dec::Cell(k, o, true) => {
                    self.decs.push(Dec::Cell(k, !o, false));
                    return true;
                }
                _ => {}
            }
        }
        false
    }

    // ---------- terms ----------
    pub fn lin_id(&mut self, l: Lin) -> LinId {
        if let Some(&i) = self.lin_map.get(&l) {
            return i;
        }
        let i = self.lins.len() as u32;
        self.lins.push(l.clone());
        self.lin_map.insert(l, i);
        i
    }
    pub fn lin_const(&mut self, c: Rat) -> LinId {
        self.lin_id(Lin { t: vec![], c })
    }
    fn atom_id(&mut self, a: Atom) -> AtomId {
        if let Some(&i) = self.atom_map.get(&a) {
            return i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(a);
        self.atom_map.insert(a, i);
        i
    }
    fn den_id(&mut self, d: Vec<(LinId, u32)>) -> u32 {
        if let Some(&i) = self.den_map.get(&d) {
            return i;
        }
        let i = self.dens.len() as u32;
        self.dens.push(d.clone());
        self.den_map.insert(d, i);
        i
    }
    pub fn is_const(&self, l: LinId) -> Option<&Rat> {
        let x = &self.lins[l as usize];
        if x.t.is_empty() { Some(&x.c) } else { None }
    }
    fn lin_axpy(&mut self, a: LinId, kb: &Rat, b: LinId) -> LinId {
        // a + kb*b
        if kb.is_zero() {
            return a;
        }
        let (x, y) = (&self.lins[a as usize], &self.lins[b as usize]);
        let mut t = Vec::with_capacity(x.t.len() + y.t.len());
        let (mut i, mut j) = (0, 0);
        while i < x.t.len() || j < y.t.len() {
            if j >= y.t.len() || (i < x.t.len() && x.t[i].0 < y.t[j].0) {
                t.push(x.t[i].clone());
                i += 1;
            } else if i >= x.t.len() || y.t[j].0 < x.t[i].0 {
                t.push((y.t[j].0, y.t[j].1.mul(kb)));
                j += 1;
            } else {
                let s = x.t[i].1.add(&y.t[j].1.mul(kb));
                if !s.is_zero() {
                    t.push((x.t[i].0, s));
                }
                i += 1;
                j += 1;
            }
        }
        let c = x.c.add(&y.c.mul(kb));
        self.lin_id(Lin { t, c })
    }
    fn lin_scale(&mut self, a: LinId, k: &Rat) -> LinId {
        if k.is_one() {
            return a;
        }
        let z = self.lin_const(Rat::zero());
        self.lin_axpy(z, k, a)
    }
    /// (content, primitive) with a = content * primitive; the primitive's leading coefficient is 1
    fn prim(&mut self, a: LinId) -> (Rat, LinId) {
        let k = self.lins[a as usize].t[0].1.clone();
        if k.is_one() {
            return (k, a);
        }
        let p = self.lin_scale(a, &k.inv());
        (k, p)
    }
    pub fn lin_mul(&mut self, a: LinId, b: LinId) -> LinId {
        if let Some(k) = self.is_const(a).cloned() {
            return self.lin_scale_z(b, &k);
        }
        if let Some(k) = self.is_const(b).cloned() {
            return self.lin_scale_z(a, &k);
        }
        let (ka, pa) = self.prim(a);
        let (kb, pb) = self.prim(b);
        let (x, y) = if pa <= pb { (pa, pb) } else { (pb, pa) };
        let at = self.atom_id(Atom::Mul(x, y));
        self.lin_id(Lin { t: vec![(at, ka.mul(&kb))], c: Rat::zero() })
    }
    pub fn lin_mul_const(&mut self, a: LinId, k: &Rat) -> LinId {
        self.lin_scale_z(a, k)
    }
    fn lin_scale_z(&mut self, a: LinId, k: &Rat) -> LinId {
        if k.is_zero() { self.lin_const(Rat::zero()) } else { self.lin_scale(a, k) }
    }
    pub fn mk(&mut self, v: V, fp: u32) -> Sym {
        let i = self.vals.len() as u32;
        self.vals.push((v, fp));
        self.stats.ops += 1;
        Sym(i)
    }
    pub fn fp(&mut self, f: Fp) -> u32 {
        if !self.fp_on {
            return 0;
        }
        if let Some(&i) = self.fp_map.get(&f) {
            return i;
        }
        let i = self.fps.len() as u32;
        self.fps.push(f);
        self.fp_map.insert(f, i);
        i
    }
    fn fp_const(&mut self, r: &Rat) -> u32 {
        if !self.fp_on {
            return 0;
        }
        let n = self.fp_consts.len() as u32;
        let k = *self.fp_consts.entry(r.clone()).or_insert(n);
        self.fp(Fp::Const(k))
    }
    fn fp_is_const(&self, f: u32, r: &Rat) -> bool {
        self.fp_on
            && matches!(self.fps[f as usize], Fp::Const(k) if self.fp_consts.get(r) == Some(&k))
    }
    pub fn fp_op(&mut self, op: u8, a: u32, b: u32, c: u32) -> u32 {
        if !self.fp_on {
            return 0;
        }
        let (mut a, mut b) = (a, b);
        match op {
            b'+' | b'*' | b'f' if b < a => std::mem::swap(&mut a, &mut b),
            _ => {}
        }
        if op == b'n' {
            if let Fp::Op(b'n', x, _, _) = self.fps[a as usize] {
                return x;
            }
        }
        if op == b'*' {
            if self.fp_is_const(a, &Rat::one()) {
                return b;
            }
            if self.fp_is_const(b, &Rat::one()) {
                return a;
            }
        }
        if op == b'/' && self.fp_is_const(b, &Rat::one()) {
            return a;
        }
        self.fp(Fp::Op(op, a, b, c))
    }
    pub fn constant(&mut self, r: Rat) -> Sym {
        let f = self.fp_const(&r);
        let n = self.lin_const(r);
        self.mk(V::Num { n, d: 0 }, f)
    }
    pub fn special(&mut self, v: V) -> Sym {
        let f = self.fp(Fp::Special(match v {
            V::Nan => 0,
            V::Inf(false) => 1,
            _ => 2,
        }));
        self.mk(v, f)
    }
    pub fn new_var(&mut self, name: &str, lo: Rat, hi: Rat) -> Sym {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), lo, hi });
        let a = self.atom_id(Atom::Var(id));
        let n = self.lin_id(Lin { t: vec![(a, Rat::one())], c: Rat::zero() });
        let f = self.fp(Fp::Var(id));
        self.mk(V::Num { n, d: 0 }, f)
    }
    pub fn get(&self, s: Sym) -> V {
        self.vals[s.0 as usize].0
    }
    pub fn get_fp(&self, s: Sym) -> u32 {
        self.vals[s.0 as usize].1
    }
    pub fn const_of(&self, s: Sym) -> Option<Rat> {
        match self.get(s) {
            V::Num { n, d: 0 } => self.is_const(n).cloned(),
            _ => None,
        }
    }
    fn den_mul_lin(&mut self, n: LinId, fs: &[(LinId, u32)]) -> LinId {
        let mut r = n;
        for (l, p) in fs {
            for _ in 0..*p {
                r = self.lin_mul(r, *l);
            }
        }
        r
    }
    /// a*x + b*y over the least common denominator
    pub fn add_num(&mut self, (n1, d1): (LinId, u32), k: &Rat, (n2, d2): (LinId, u32)) -> (LinId, u32) {
        if d1 == d2 {
            let n = self.lin_axpy(n1, k, n2);
            if self.is_const(n).is_some_and(|c| c.is_zero()) {
                return (n, 0);
            }
            return self.cancel(n, d1);
        }
        let (a, b) = (self.dens[d1 as usize].clone(), self.dens[d2 as usize].clone());
        let (mut l, mut m1, mut m2) = (vec![], vec![], vec![]);
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                l.push(a[i]);
                m2.push(a[i]);
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                l.push(b[j]);
                m1.push(b[j]);
                j += 1;
            } else {
                let p = a[i].1.max(b[j].1);
                l.push((a[i].0, p));
                if p > a[i].1 {
                    m1.push((a[i].0, p - a[i].1));
                }
                if p > b[j].1 {
                    m2.push((a[i].0, p - b[j].1));
                }
                i += 1;
                j += 1;
            }
        }
        let x = self.den_mul_lin(n1, &m1);
        let y = self.den_mul_lin(n2, &m2);
        let n = self.lin_axpy(x, k, y);
        if self.is_const(n).is_some_and(|c| c.is_zero()) {
            return (n, 0);
        }
        let d = self.den_id(l);
        self.cancel(n, d)
    }
    /// Cancel common factors when the numerator is a scaled denominator factor or a product containing one.
    fn cancel(&mut self, n: LinId, d: u32) -> (LinId, u32) {
        if d == 0 || self.is_const(n).is_some() {
            return (n, d);
        }
        let (k, p) = self.prim(n);
        let den = self.dens[d as usize].clone();
        if let Some(ix) = den.iter().position(|f| f.0 == p) {
            let mut nd = den.clone();
            nd[ix].1 -= 1;
            if nd[ix].1 == 0 {
                nd.remove(ix);
            }
            let d2 = self.den_id(nd);
            let n2 = self.lin_const(k);
            return (n2, d2);
        }
        let pl = &self.lins[p as usize];
        if pl.t.len() == 1 && pl.c.is_zero() {
            if let Atom::Mul(x, y) = self.atoms[pl.t[0].0 as usize] {
                for (a, b) in [(x, y), (y, x)] {
                    if let Some(ix) = den.iter().position(|f| f.0 == a) {
                        let mut nd = den.clone();
                        nd[ix].1 -= 1;
                        if nd[ix].1 == 0 {
                            nd.remove(ix);
                        }
                        let d2 = self.den_id(nd);
                        let n2 = self.lin_scale(b, &k);
                        return self.cancel(n2, d2);
                    }
                }
            }
        }
        (n, d)
    }
    pub fn mul_num(&mut self, (n1, d1): (LinId, u32), (n2, d2): (LinId, u32)) -> (LinId, u32) {
        // cross cancellation first
        let (n1, d2) = self.cancel(n1, d2);
        let (n2, d1) = self.cancel(n2, d1);
        let n = self.lin_mul(n1, n2);
        if self.is_const(n).is_some_and(|c| c.is_zero()) {
            return (n, 0);
        }
        let d = if d1 == 0 {
            d2
        } else if d2 == 0 {
            d1
        } else {
            let mut m: Vec<(LinId, u32)> = self.dens[d1 as usize].clone();
            for f in self.dens[d2 as usize].clone() {
                match m.iter_mut().find(|g| g.0 == f.0) {
                    Some(g) => g.1 += f.1,
                    None => m.push(f),
                }
            }
            m.sort();
            self.den_id(m)
        };
        (n, d)
    }
    /// 1/(n/d); None if n is the constant zero. The caller has established n != 0.
    pub fn inv_num(&mut self, (n, d): (LinId, u32)) -> Option<(LinId, u32)> {
        if let Some(c) = self.is_const(n).cloned() {
            if c.is_zero() {
                return None;
            }
            let one = self.lin_const(c.inv());
            let ds = self.dens[d as usize].clone();
            return Some((self.den_mul_lin(one, &ds), 0));
        }
        let (k, p) = self.prim(n);
        let mut fs: Vec<(LinId, u32)> = vec![];
        let mut todo = vec![p];
        let mut kk = k;
        while let Some(q) = todo.pop() {
            let (c, q) = self.prim(q);
            kk = kk.mul(&c);
            let ql = &self.lins[q as usize];
            if ql.t.len() == 1 && ql.c.is_zero() {
                if let Atom::Mul(x, y) = self.atoms[ql.t[0].0 as usize] {
                    todo.push(x);
                    todo.push(y);
                    continue;
                }
            }
            match fs.iter_mut().find(|g| g.0 == q) {
                Some(g) => g.1 += 1,
                None => fs.push((q, 1)),
            }
        }
        fs.sort();
        let nd = self.den_id(fs);
        let one = self.lin_const(kk.inv());
        let ds = self.dens[d as usize].clone();
        let nn = self.den_mul_lin(one, &ds);
        Some(self.cancel(nn, nd))
    }

    // ---------- path condition ----------
    fn norm_lit(&mut self, l: LinId, op: Op) -> Lit {
        if self.is_const(l).is_some() {
            return (l, op);
        }
        let k = self.lins[l as usize].t[0].1.abs();
        let p = self.lin_scale(l, &k.inv());
        if matches!(op, Op::Eq | Op::Ne) && self.lins[p as usize].t[0].1.sign() < 0 {
            let q = self.lin_scale(p, &Rat::int(-1));
            return (q, op);
        }
        (p, op)
    }
    fn neg_lit(&mut self, (l, op): Lit) -> Lit {
        match op {
            Op::Lt => {
                let m = self.lin_scale(l, &Rat::int(-1));
                (m, Op::Le)
            }
            Op::Le => {
                let m = self.lin_scale(l, &Rat::int(-1));
                (m, Op::Lt)
            }
            Op::Eq => (l, Op::Ne),
            Op::Ne => (l, Op::Eq),
        }
    }
    fn holds_const(c: &Rat, op: Op) -> bool {
        match op {
            Op::Lt => c.sign() < 0,
            Op::Le => c.sign() <= 0,
            Op::Eq => c.is_zero(),
            Op::Ne => !c.is_zero(),
        }
    }
    fn remember(&mut self, lit: Lit, val: bool) {
        self.known.entry(lit.0).or_default().push((lit.1, val));
    }
    fn recall(&mut self, lit: Lit) -> Option<bool> {
        // direct or via the negated form
        if let Some(v) = self.known.get(&lit.0) {
            for (op, b) in v {
                if *op == lit.1 {
                    return Some(*b);
                }
                match (*op, *b, lit.1) {
                    (Op::Lt, true, Op::Le) => return Some(true),
                    (Op::Le, false, Op::Lt) => return Some(false),
                    (Op::Lt, true, Op::Eq) => return Some(false),
                    (Op::Eq, true, Op::Lt) => return Some(false),
                    (Op::Eq, true, Op::Le) => return Some(true),
                    _ => {}
                }
            }
        }
        let n = self.neg_lit(lit);
        if let Some(v) = self.known.get(&n.0) {
            for (op, b) in v {
                if *op == n.1 {
                    return Some(!*b);
                }
                match (*op, *b, n.1) {
                    (Op::Lt, true, Op::Le) => return Some(false),
                    (Op::Le, false, Op::Lt) => return Some(true),
                    _ => {}
                }
            }
        }
        None
    }
    pub fn assume(&mut self, l: LinId, op: Op) {
        let lit = self.norm_lit(l, op);
        if let Some(c) = self.is_const(lit.0) {
            if !Self::holds_const(&c.clone(), op) {
                abort(Abort::Infeasible);
            }
            return;
        }
        self.pc.push(lit);
        self.remember(lit, true);
    }
    /// Decide a literal, forking when the path condition allows both outcomes.
    pub fn branch(&mut self, l: LinId, op: Op) -> bool {
        let lit = self.norm_lit(l, op);
        if let Some(c) = self.is_const(lit.0) {
            return Self::holds_const(&c.clone(), lit.1);
        }
        if let Some(b) = self.recall(lit) {
            return b;
        }
        let out;
        let forced;
        if self.pos < self.decs.len() {
            match &self.decs[self.pos] {
                Dec::Bool(o, _, fo) => {
                    out = *o;
                    forced = *fo;
                }
                d => panic!("decision mismatch at {} ({d:?}): harness is not deterministic", self.pos),
            }
        } else {
            if self.decs.len() > self.max_forks {
                abort(Abort::Limit("too many decisions on one path".into()));
            }
            let neg = self.neg_lit(lit);
            let t = self.check_with(&[lit], 4000).0;
            if t == Res::Unsat {
                out = false;
                forced = true;
                self.decs.push(Dec::Bool(false, false, true));
                self.stats.forced += 1;
            } else {
                let f = self.check_with(&[neg], 4000).0;
                if f == Res::Unsat {
                    out = true;
                    forced = true;
                    self.decs.push(Dec::Bool(true, false, true));
                    self.stats.forced += 1;
                } else {
                    out = true;
                    forced = false;
                    self.decs.push(Dec::Bool(true, true, false));
                    self.stats.forks += 1;
                }
            }
        }
        self.pos += 1;
        if !forced {
            let x = if out { lit } else { self.neg_lit(lit) };
            self.pc.push(x);
        }
        self.remember(lit, out);
        out
    }
    /// Sign of a denominator factor under the path condition (forks if undetermined; zero aborts the path).
    fn factor_sign(&mut self, l: LinId) -> i32 {
        if let Some(&s) = self.den_sign.get(&l) {
            return s;
        }
        let m = self.lin_scale(l, &Rat::int(-1));
        // l > 0 ?
        let s = if self.branch(m, Op::Lt) {
            1
        } else if self.branch(l, Op::Lt) {
            -1
        } else {
            0
        };
        self.den_sign.insert(l, s);
        s
    }
    /// Numerator with the sign of its denominator folded in
    pub fn signed_num(&mut self, (n, d): (LinId, u32)) -> LinId {
        let mut s = 1;
        for (l, p) in self.dens[d as usize].clone() {
            if p % 2 == 1 {
                s *= self.factor_sign(l);
            }
        }
        if s < 0 { self.lin_scale(n, &Rat::int(-1)) } else { n }
    }
    /// Symbolic floor: fix the cell by forking over the integers the path condition allows.
    pub fn floor_of(&mut self, x: (LinId, u32)) -> Int {
        if x.1 == 0 {
            if let Some(c) = self.is_const(x.0) {
                return c.floor();
            }
        }
        for _ in 0..self.max_cells {
            let k: Int;
            let fresh = self.pos >= self.decs.len();
            if fresh {
                match self.model_value(x) {
                    Some(v) => k = v.floor(),
                    None => abort(Abort::Unsupported("no model for a floor argument".into())),
                }
            } else {
                match &self.decs[self.pos] {
                    Dec::Cell(kk, _, _) => k = kk.clone(),
                    d => panic!("decision mismatch ({d:?}): harness is not deterministic"),
                }
            }
            // k <= x  and  x < k+1
            let kc = self.lin_const(Rat::new(k.clone(), Int::S(1)));
            let (n1, d1) = self.add_num((kc, 0), &Rat::int(-1), x); // k - x <= 0
            let lo = self.signed_num((n1, d1));
            let k1 = self.lin_const(Rat::new(k.add(&Int::S(1)), Int::S(1)));
            let (n2, d2) = self.add_num(x, &Rat::int(-1), (k1, 0)); // x - k - 1 < 0
            let hi = self.signed_num((n2, d2));
            // signed_num may have consumed decisions; re-read position
            let a = self.norm_lit(lo, Op::Le);
            let b = self.norm_lit(hi, Op::Lt);
            let na = self.neg_lit(a);
            let nb = self.neg_lit(b);
            let out;
            if self.pos < self.decs.len() {
                match &self.decs[self.pos] {
                    Dec::Cell(_, o, _) => out = *o,
                    d => panic!("decision mismatch ({d:?}): harness is not deterministic"),
                }
            } else {
                // is another cell possible?
                let below = self.check_with(&[na], 4000).0;
                let above = if below == Res::Unsat { self.check_with(&[nb], 4000).0 } else { Res::Sat };
                let open = !(below == Res::Unsat && above == Res::Unsat);
                self.decs.push(Dec::Cell(k.clone(), true, open));
                if open {
                    self.stats.forks += 1;
                }
                out = true;
            }
            self.pos += 1;
            if out {
                for l in [a, b] {
                    if self.is_const(l.0).is_none() {
                        self.pc.push(l);
                        self.remember(l, true);
                    }
                }
                return k;
            }
            // not in cell k: x < k or x >= k+1 -- as a fork of its own
            if self.branch_lit(na) {
                continue;
            }
            // then x >= k+1 must hold
            if self.check_with(&[nb], 4000).0 == Res::Unsat {
                abort(Abort::Infeasible);
            }
            if self.is_const(nb.0).is_none() {
                self.pc.push(nb);
                self.remember(nb, true);
            }
        }
        abort(Abort::Limit("too many cells for one floor".into()))
    }
    fn branch_lit(&mut self, l: Lit) -> bool {
        self.branch(l.0, l.1)
    }

    // ---------- solver encoding ----------
    fn lin_vars(&self, l: LinId, seen: &mut HashSet<LinId>, out: &mut BTreeSet<u32>) {
        let mut st = vec![l];
        while let Some(l) = st.pop() {
            if !seen.insert(l) {
                continue;
            }
            for (a, _) in &self.lins[l as usize].t {
                match self.atoms[*a as usize] {
                    Atom::Var(v) => {
                        out.insert(v);
                    }
                    Atom::Mul(x, y) => {
                        st.push(x);
                        st.push(y);
                    }
                }
            }
        }
    }
    fn is_linear(&self, l: LinId) -> bool {
        self.lins[l as usize].t.iter().all(|(a, _)| matches!(self.atoms[*a as usize], Atom::Var(_)))
    }
    fn lin_text(&self, l: LinId) -> String {
        let x = &self.lins[l as usize];
        let mut parts = vec![];
        if !x.c.is_zero() || x.t.is_empty() {
            parts.push(x.c.smt());
        }
        for (a, k) in &x.t {
            let n = match self.atoms[*a as usize] {
                Atom::Var(v) => format!("v{v}"),
                Atom::Mul(_, _) => format!("m{a}"),
            };
            parts.push(if k.is_one() { n } else { format!("(* {} {n})", k.smt()) });
        }
        if parts.len() == 1 { parts.pop().unwrap() } else { format!("(+ {})", parts.join(" ")) }
    }
    fn emit_defs(&self, l: LinId, done: &mut HashSet<AtomId>, out: &mut String) {
        // iterative post-order over product atoms
        let mut st: Vec<(AtomId, bool)> = vec![];
        for (a, _) in &self.lins[l as usize].t {
            st.push((*a, false));
        }
        while let Some((a, ready)) = st.pop() {
            if done.contains(&a) {
                continue;
            }
            if let Atom::Mul(x, y) = self.atoms[a as usize] {
                if ready {
                    let _ = write!(out, "(define-fun m{a} () Real (* {} {}))\n", self.lin_text(x), self.lin_text(y));
                    done.insert(a);
                } else {
                    st.push((a, true));
                    for q in [x, y] {
                        for (b, _) in &self.lins[q as usize].t {
                            if !done.contains(b) {
                                st.push((*b, false));
                            }
                        }
                    }
                }
            } else {
                done.insert(a);
            }
        }
    }
    fn lit_text(&self, (l, op): Lit) -> String {
        let t = self.lin_text(l);
        match op {
            Op::Lt => format!("(< {t} 0.0)"),
            Op::Le => format!("(<= {t} 0.0)"),
            Op::Eq => format!("(= {t} 0.0)"),
            Op::Ne => format!("(not (= {t} 0.0))"),
        }
    }
    /// Build a query from the goal literals (conjunction) plus the part of the path condition connected to them.
    pub fn encode(&self, goal: &[Lit], use_pc: bool, disj: Option<&[Lit]>, all: bool, extra: &str) -> (String, &'static str, Vec<u32>) {
        let mut vars = BTreeSet::new();
        let mut seen = HashSet::new();
        let mut lits: Vec<Lit> = goal.to_vec();
        for g in goal {
            self.lin_vars(g.0, &mut seen, &mut vars);
        }
        if let Some(d) = disj {
            for g in d {
                self.lin_vars(g.0, &mut seen, &mut vars);
            }
        }
        if use_pc {
            let lv: Vec<BTreeSet<u32>> = self
                .pc
                .iter()
                .map(|p| {
                    let mut s = HashSet::new();
                    let mut o = BTreeSet::new();
                    self.lin_vars(p.0, &mut s, &mut o);
                    o
                })
                .collect();
            let mut used = vec![false; lv.len()];
            loop {
                let mut ch = false;
                for i in 0..lv.len() {
                    if !used[i] && (all || lv[i].iter().any(|v| vars.contains(v))) {
                        used[i] = true;
                        ch = true;
                        vars.extend(lv[i].iter());
                        lits.push(self.pc[i]);
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        if all {
            vars.extend(0..self.vars.len() as u32);
        }
        let mut s = String::new();
        for v in &vars {
            let i = &self.vars[*v as usize];
            let _ = write!(s, "(declare-const v{v} Real)\n");
            if use_pc {
                let _ = write!(s, "(assert (<= {} v{v} {}))\n", i.lo.smt(), i.hi.smt());
            }
        }
        let mut done = HashSet::new();
        for l in lits.iter().chain(disj.unwrap_or(&[])) {
            self.emit_defs(l.0, &mut done, &mut s);
        }
        let mut lin = true;
        for l in &lits {
            lin &= self.is_linear(l.0);
            let _ = write!(s, "(assert {})\n", self.lit_text(*l));
        }
        if let Some(d) = disj {
            for l in d {
                lin &= self.is_linear(l.0);
            }
            let t: Vec<String> = d.iter().map(|l| self.lit_text(*l)).collect();
            let _ = write!(s, "(assert (or false {}))\n", t.join(" "));
        }
        s.push_str(extra);
        (s, if lin { "QF_LRA" } else { "QF_NRA" }, vars.into_iter().collect())
    }
    pub fn check_with(&mut self, goal: &[Lit], timeout: u64) -> (Res, Vec<(u32, Rat)>) {
        for g in goal {
            if let Some(c) = self.is_const(g.0) {
                if !Self::holds_const(&c.clone(), g.1) {
                    return (Res::Unsat, vec![]);
                }
            }
        }
        let (s, logic, vars) = self.encode(goal, true, None, false, "");
        self.run(&s, logic, &vars, false, timeout)
    }
    pub fn run(&mut self, s: &str, logic: &str, vars: &[u32], model: bool, timeout: u64) -> (Res, Vec<(u32, Rat)>) {
        self.stats.max_query_bytes = self.stats.max_query_bytes.max(s.len() as u64);
        let names: Vec<String> = if model { vars.iter().map(|v| format!("v{v}")).collect() } else { vec![] };
        let (r, m) = self.smt.query(logic, s, &names, timeout);
        let m = m.into_iter().filter_map(|(n, r)| n[1..].parse().ok().map(|v: u32| (v, r))).collect();
        (r, m)
    }
    /// A model of the whole path condition (every variable)
    pub fn path_model(&mut self) -> Option<Vec<Rat>> {
        let (s, logic, vars) = self.encode(&[], true, None, true, "");
        let (r, m) = self.run(&s, logic, &vars, true, 10000);
        if r != Res::Sat {
            return None;
        }
        let mut out: Vec<Rat> = self.vars.iter().map(|v| v.lo.clone()).collect();
        for (v, x) in m {
            out[v as usize] = x;
        }
        Some(out)
    }
    /// Value of a term in some model of the path condition
    fn model_value(&mut self, x: (LinId, u32)) -> Option<Rat> {
        let mut lits: Vec<Lit> = vec![];
        for (l, _) in self.dens[x.1 as usize].clone() {
            lits.push((l, Op::Ne));
        }
        // a trivially true literal that pulls the variables of the numerator in
        let z = self.lin_const(Rat::int(0));
        lits.push((z, Op::Eq));
        let mut vs = BTreeSet::new();
        let mut seen = HashSet::new();
        self.lin_vars(x.0, &mut seen, &mut vs);
        // force connection: add  n = n  by hand through `all` when small
        let (s, logic, vars) = self.encode_for_vars(&lits, &vs);
        let (r, m) = self.run(&s, logic, &vars, true, 10000);
        if r != Res::Sat {
            return None;
        }
        let mut map: HashMap<u32, Rat> = m.into_iter().collect();
        for v in vs {
            map.entry(v).or_insert(self.vars[v as usize].lo.clone());
        }
        let val = |v: u32| map.get(&v).cloned().unwrap_or(Rat::zero());
        let mut cache = HashMap::new();
        let n = self.eval_lin(x.0, &val, &mut cache);
        let mut d = Rat::one();
        for (l, p) in self.dens[x.1 as usize].clone() {
            for _ in 0..p {
                d = d.mul(&self.eval_lin(l, &val, &mut cache));
            }
        }
        if d.is_zero() { None } else { Some(n.div(&d)) }
    }
    fn encode_for_vars(&self, lits: &[Lit], vs: &BTreeSet<u32>) -> (String, &'static str, Vec<u32>) {
        // all literals connected to vs
        let mut vars = vs.clone();
        let mut seen = HashSet::new();
        for g in lits {
            self.lin_vars(g.0, &mut seen, &mut vars);
        }
        let mut sel: Vec<Lit> = lits.to_vec();
        let lv: Vec<BTreeSet<u32>> = self
            .pc
            .iter()
            .map(|p| {
                let mut s = HashSet::new();
                let mut o = BTreeSet::new();
                self.lin_vars(p.0, &mut s, &mut o);
                o
            })
            .collect();
        let mut used = vec![false; lv.len()];
        loop {
            let mut ch = false;
            for i in 0..lv.len() {
                if !used[i] && lv[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vars.extend(lv[i].iter());
                    sel.push(self.pc[i]);
                }
            }
            if !ch {
                break;
            }
        }
        let mut s = String::new();
        for v in &vars {
            let i = &self.vars[*v as usize];
            let _ = write!(s, "(declare-const v{v} Real)\n(assert (<= {} v{v} {}))\n", i.lo.smt(), i.hi.smt());
        }
        let mut done = HashSet::new();
        let mut lin = true;
        for l in &sel {
            self.emit_defs(l.0, &mut done, &mut s);
        }
        for l in &sel {
            lin &= self.is_linear(l.0);
            let _ = write!(s, "(assert {})\n", self.lit_text(*l));
        }
        (s, if lin { "QF_LRA" } else { "QF_NRA" }, vars.into_iter().collect())
    }
    pub fn eval_lin(&self, l: LinId, val: &dyn Fn(u32) -> Rat, cache: &mut HashMap<AtomId, Rat>) -> Rat {
        // iterative evaluation in atom-id order (children have smaller ids)
        let mut need: BTreeSet<AtomId> = BTreeSet::new();
        let mut st: Vec<AtomId> = self.lins[l as usize].t.iter().map(|x| x.0).collect();
        while let Some(a) = st.pop() {
            if cache.contains_key(&a) || !need.insert(a) {
                continue;
            }
            if let Atom::Mul(x, y) = self.atoms[a as usize] {
                for q in [x, y] {
                    st.extend(self.lins[q as usize].t.iter().map(|z| z.0));
                }
            }
        }
        let lv = |l: LinId, cache: &HashMap<AtomId, Rat>| {
            let x = &self.lins[l as usize];
            let mut r = x.c.clone();
            for (a, k) in &x.t {
                r = r.add(&k.mul(&cache[a]));
            }
            r
        };
        for a in need {
            let v = match self.atoms[a as usize] {
                Atom::Var(v) => val(v),
                Atom::Mul(x, y) => lv(x, cache).mul(&lv(y, cache)),
            };
            cache.insert(a, v);
        }
        lv(l, cache)
    }

    // ---------- limits: substitution and differentiation with respect to one input ----------
    fn lin_subst(&mut self, l: LinId, v: u32, r: &Rat, memo: &mut HashMap<AtomId, LinId>) -> LinId {
        let x = self.lins[l as usize].clone();
        let mut out = self.lin_const(x.c);
        for (a, k) in x.t {
            let m = match memo.get(&a) {
                Some(&m) => m,
                None => {
                    let m = match self.atoms[a as usize] {
                        Atom::Var(w) if w == v => self.lin_const(r.clone()),
                        Atom::Var(_) => self.lin_id(Lin { t: vec![(a, Rat::one())], c: Rat::zero() }),
                        Atom::Mul(p, q) => {
                            let p2 = self.lin_subst(p, v, r, memo);
                            let q2 = self.lin_subst(q, v, r, memo);
                            self.lin_mul(p2, q2)
                        }
                    };
                    memo.insert(a, m);
                    m
                }
            };
            out = self.lin_axpy(out, &k, m);
        }
        out
    }
    fn lin_deriv(&mut self, l: LinId, v: u32, memo: &mut HashMap<AtomId, LinId>) -> LinId {
        let x = self.lins[l as usize].clone();
        let mut out = self.lin_const(Rat::zero());
        for (a, k) in x.t {
            let m = match memo.get(&a) {
                Some(&m) => m,
                None => {
                    let m = match self.atoms[a as usize] {
                        Atom::Var(w) => self.lin_const(if w == v { Rat::one() } else { Rat::zero() }),
                        Atom::Mul(p, q) => {
                            let p2 = self.lin_deriv(p, v, memo);
                            let q2 = self.lin_deriv(q, v, memo);
                            let s = self.lin_mul(p2, q);
                            let t = self.lin_mul(p, q2);
                            self.lin_axpy(s, &Rat::one(), t)
                        }
                    };
                    memo.insert(a, m);
                    m
                }
            };
            out = self.lin_axpy(out, &k, m);
        }
        out
    }
    fn den_as_lin(&mut self, d: u32) -> LinId {
        let mut dp = self.lin_const(Rat::one());
        for (l, p) in self.dens[d as usize].clone() {
            for _ in 0..p {
                dp = self.lin_mul(dp, l);
            }
        }
        dp
    }
    fn frac(&mut self, n: LinId, dens: Vec<(LinId, u32)>) -> (LinId, u32) {
        let mut r = (n, 0);
        for (l, p) in dens {
            for _ in 0..p {
                let i = self.inv_num((l, 0)).unwrap_or_else(|| abort(Abort::Unsupported("limit with a vanishing denominator".into())));
                r = self.mul_num(r, i);
            }
        }
        r
    }
    /// value with the input `of` replaced by r
    pub fn limit(&mut self, s: Sym, of: Sym, r: &Rat) -> Sym {
        let v = self.var_of(of);
        let V::Num { n, d } = self.get(s) else { return s };
        let mut memo = HashMap::new();
        let n2 = self.lin_subst(n, v, r, &mut memo);
        let ds = self.dens[d as usize].clone();
        let mut nd = vec![];
        for (l, p) in ds {
            nd.push((self.lin_subst(l, v, r, &mut memo), p));
        }
        let (n, d) = self.frac(n2, nd);
        self.mk(V::Num { n, d }, 0)
    }
    /// derivative with respect to the input `of`
    pub fn deriv(&mut self, s: Sym, of: Sym) -> Sym {
        let v = self.var_of(of);
        let V::Num { n, d } = self.get(s) else { return s };
        let mut memo = HashMap::new();
        let dn = self.lin_deriv(n, v, &mut memo);
        let dl = self.den_as_lin(d);
        let dd = self.lin_deriv(dl, v, &mut memo);
        if self.is_const(dd).is_some_and(|c| c.is_zero()) {
            let ds = self.dens[d as usize].clone();
            let (n, d) = self.frac(dn, ds);
            return self.mk(V::Num { n, d }, 0);
        }
        // (n' D - n D') / D^2
        let a = self.lin_mul(dn, dl);
        let b = self.lin_mul(n, dd);
        let num = self.lin_axpy(a, &Rat::int(-1), b);
        let ds: Vec<(LinId, u32)> = self.dens[d as usize].iter().map(|&(l, p)| (l, 2 * p)).collect();
        let (n, d) = self.frac(num, ds);
        self.mk(V::Num { n, d }, 0)
    }
    fn var_of(&self, of: Sym) -> u32 {
        if let V::Num { n, d: 0 } = self.get(of) {
            if let [(a, _)] = self.lins[n as usize].t[..] {
                if let Atom::Var(v) = self.atoms[a as usize] {
                    return v;
                }
            }
        }
        panic!("not an input")
    }
}

// ---------- the scalar type ----------
#[derive(Clone, Copy)]
pub struct Sym(pub u32);

fn num_pair(v: V) -> Option<(LinId, u32)> {
    match v {
        V::Num { n, d } => Some((n, d)),
        _ => None,
    }
}
impl Sym {
    pub fn from_rat(r: Rat) -> Sym {
        eng(|e| e.constant(r))
    }
    fn addk(self, o: Sym, k: i64) -> Sym {
        eng(|e| {
            let fb = if k < 0 { let f = e.get_fp(o); e.fp_op(b'n', f, 0, 0) } else { e.get_fp(o) };
            let fa = e.get_fp(self);
            let f = e.fp_op(b'+', fa, fb, 0);
            let (a, b) = (e.get(self), e.get(o));
            let r = match (a, b) {
                (V::Num { n: n1, d: d1 }, V::Num { n: n2, d: d2 }) => {
                    let (n, d) = e.add_num((n1, d1), &Rat::int(k), (n2, d2));
                    V::Num { n, d }
                }
                (V::Nan, _) | (_, V::Nan) => V::Nan,
                (V::Inf(s), V::Inf(t)) => if s == (t != (k < 0)) { V::Inf(s) } else { V::Nan },
                (V::Inf(s), _) => V::Inf(s),
                (_, V::Inf(t)) => V::Inf(t != (k < 0)),
            };
            e.mk(r, f)
        })
    }
    /// sign of a value: forks. Returns -1, 0, 1 (NaN gives None)
    fn sign(self) -> Option<i32> {
        let v = eng(|e| e.get(self));
        match v {
            V::Nan => None,
            V::Inf(s) => Some(if s { -1 } else { 1 }),
            V::Num { n, d } => Some(eng(|e| {
                let m = e.signed_num((n, d));
                if e.branch(m, Op::Lt) {
                    -1
                } else if e.branch(m, Op::Eq) {
                    0
                } else {
                    1
                }
            })),
        }
    }
    fn rel(self, o: Sym, op: Op) -> bool {
        eng(|e| {
            let (a, b) = (e.get(self), e.get(o));
            match (a, b) {
                (V::Nan, _) | (_, V::Nan) => false,
                (V::Num { n: n1, d: d1 }, V::Num { n: n2, d: d2 }) => {
                    let (n, d) = e.add_num((n1, d1), &Rat::int(-1), (n2, d2));
                    if matches!(op, Op::Eq) {
                        return e.branch(n, Op::Eq);
                    }
                    let m = e.signed_num((n, d));
                    e.branch(m, op)
                }
                (a, b) => {
                    let rank = |v: V| match v {
                        V::Inf(true) => -1,
                        V::Inf(false) => 1,
                        _ => 0,
                    };
                    match op {
                        Op::Lt => rank(a) < rank(b),
                        Op::Le => rank(a) <= rank(b),
                        _ => rank(a) == rank(b),
                    }
                }
            }
        })
    }
    fn unary_int(self, tag: u8, g: impl Fn(&mut Eng, (LinId, u32)) -> Rat) -> Sym {
        eng(|e| {
            let v = e.get(self);
            let fa = e.get_fp(self);
            let f = e.fp_op(tag, fa, 0, 0);
            match num_pair(v) {
                None => e.mk(v, f),
                Some(p) => {
                    let r = g(e, p);
                    // the cell index is fixed on this path, so the result is that constant
                    let n = e.lin_const(r.clone());
                    let _ = f;
                    let fc = e.fp_const(&r);
                    e.mk(V::Num { n, d: 0 }, fc)
                }
            }
        })
    }
    /// Fix the value to a constant allowed by the path condition (an under-approximation, counted).
    fn concretise(self) -> Option<Rat> {
        eng(|e| {
            if let Some(c) = e.const_of(self) {
                return Some(c);
            }
            let (n, d) = num_pair(e.get(self))?;
            let r = if e.pos < e.decs.len() {
                match e.decs[e.pos].clone() {
                    Dec::Cell(k, _, _) => Rat::new(k, Int::S(1 << 20)),
                    _ => panic!("decision mismatch"),
                }
            } else {
                let r = e.model_value((n, d))?;
                let k = r.mul(&Rat::int(1 << 20)).floor();
                e.decs.push(Dec::Cell(k.clone(), true, false));
                Rat::new(k, Int::S(1 << 20))
            };
            e.pos += 1;
            e.stats.concretised += 1;
            let c = e.lin_const(r.clone());
            let (n, _) = e.add_num((n, d), &Rat::int(-1), (c, 0));
            let (s, logic, vars) = e.encode(&[(n, Op::Eq)], true, None, false, "");
            if e.run(&s, logic, &vars, false, 4000).0 == Res::Unsat {
                abort(Abort::Unsupported("conversion of a symbolic value to a primitive float".into()));
            }
            e.assume(n, Op::Eq);
            Some(r)
        })
    }
    fn to_int(self) -> Option<Int> {
        let v = eng(|e| e.get(self));
        let p = num_pair(v)?;
        if let Some(c) = eng(|e| e.const_of(self)) {
            return Some(c.trunc());
        }
        // truncation towards zero
        if self.sign()? < 0 {
            let m = -self;
            let q = eng(|e| num_pair(e.get(m)))?;
            Some(eng(|e| e.floor_of(q)).neg())
        } else {
            Some(eng(|e| e.floor_of(p)))
        }
    }
    fn unsupported(&self, what: &str) -> ! {
        abort(Abort::Unsupported(what.to_string()))
    }
    fn via_f64(self, what: &str, g: impl Fn(f64) -> f64) -> Sym {
        match eng(|e| e.const_of(self)) {
            Some(c) => match Rat::from_f64(g(c.to_f64())) {
                Some(r) => Sym::from_rat(r),
                None => eng(|e| e.special(V::Nan)),
            },
            None => self.unsupported(what),
        }
    }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Sym#{}", self.0)
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Sym#{}", self.0)
    }
}
impl std::ops::Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        self.addk(o, 1)
    }
}
impl std::ops::Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        self.addk(o, -1)
    }
}
impl std::ops::Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        let (a, b) = eng(|e| (e.get(self), e.get(o)));
        let f = eng(|e| { let (x, y) = (e.get_fp(self), e.get_fp(o)); e.fp_op(b'*', x, y, 0) });
        let r = match (a, b) {
            (V::Nan, _) | (_, V::Nan) => V::Nan,
            (V::Num { n: n1, d: d1 }, V::Num { n: n2, d: d2 }) => eng(|e| {
                let (n, d) = e.mul_num((n1, d1), (n2, d2));
                V::Num { n, d }
            }),
            _ => match (self.sign(), o.sign()) {
                (Some(x), Some(y)) if x * y != 0 => V::Inf(x * y < 0),
                _ => V::Nan,
            },
        };
        eng(|e| e.mk(r, f))
    }
}
impl std::ops::Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        let (a, b) = eng(|e| (e.get(self), e.get(o)));
        let f = eng(|e| { let (x, y) = (e.get_fp(self), e.get_fp(o)); e.fp_op(b'/', x, y, 0) });
        let r = match (a, b) {
            (V::Nan, _) | (_, V::Nan) => V::Nan,
            (V::Inf(_), V::Inf(_)) => V::Nan,
            (V::Num { .. }, V::Inf(_)) => eng(|e| V::Num { n: e.lin_const(Rat::zero()), d: 0 }),
            (V::Inf(s), _) => match o.sign() {
                Some(x) if x < 0 => V::Inf(!s),
                _ => V::Inf(s),
            },
            (V::Num { n: n1, d: d1 }, V::Num { n: n2, d: d2 }) => {
                // zero divisor?
                if eng(|e| e.branch(n2, Op::Eq)) {
                    eng(|e| e.stats.div_zero_paths += 1);
                    match self.sign() {
                        Some(0) | None => V::Nan,
                        Some(s) => V::Inf(s < 0), // sign of zero not modelled
                    }
                } else {
                    eng(|e| {
                        let i = e.inv_num((n2, d2)).unwrap();
                        let (n, d) = e.mul_num((n1, d1), i);
                        V::Num { n, d }
                    })
                }
            }
        };
        eng(|e| e.mk(r, f))
    }
}
impl std::ops::Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        let q = (self / o).trunc();
        self - q * o
    }
}
impl std::ops::Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        eng(|e| {
            let fa = e.get_fp(self);
            let f = e.fp_op(b'n', fa, 0, 0);
            let r = match e.get(self) {
                V::Num { n, d } => V::Num { n: e.lin_scale(n, &Rat::int(-1)), d },
                V::Inf(s) => V::Inf(!s),
                V::Nan => V::Nan,
            };
            e.mk(r, f)
        })
    }
}
macro_rules! assign {
    ($t:ident, $m:ident, $op:tt) => {
        impl std::ops::$t for Sym {
            fn $m(&mut self, o: Sym) { *self = *self $op o; }
        }
    };
}
assign!(AddAssign, add_assign, +);
assign!(SubAssign, sub_assign, -);
assign!(MulAssign, mul_assign, *);
assign!(DivAssign, div_assign, /);
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::zero(), |a, b| a + b)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        Sym::zero()
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.rel(*o, Op::Eq)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        let nan = eng(|e| e.get(*self) == V::Nan || e.get(*o) == V::Nan);
        if nan {
            None
        } else if self.rel(*o, Op::Lt) {
            Some(Ordering::Less)
        } else if self.rel(*o, Op::Eq) {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        self.rel(*o, Op::Lt)
    }
    fn le(&self, o: &Sym) -> bool {
        self.rel(*o, Op::Le)
    }
    fn gt(&self, o: &Sym) -> bool {
        o.rel(*self, Op::Lt)
    }
    fn ge(&self, o: &Sym) -> bool {
        o.rel(*self, Op::Le)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym::from_rat(Rat::zero())
    }
    fn is_zero(&self) -> bool {
        *self == Sym::zero()
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym::from_rat(Rat::one())
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
macro_rules! toint {
    ($m:ident, $t:ty) => {
        fn $m(&self) -> Option<$t> {
            match self.to_int()? {
                Int::S(x) => <$t>::try_from(x).ok(),
                b => format!("{b}").parse::<$t>().ok(),
            }
        }
    };
}
impl ToPrimitive for Sym {
    toint!(to_isize, isize);
    toint!(to_i8, i8);
    toint!(to_i16, i16);
    toint!(to_i32, i32);
    toint!(to_i64, i64);
    toint!(to_i128, i128);
    toint!(to_usize, usize);
    toint!(to_u8, u8);
    toint!(to_u16, u16);
    toint!(to_u32, u32);
    toint!(to_u64, u64);
    toint!(to_u128, u128);
    fn to_f32(&self) -> Option<f32> {
        Some(match eng(|e| e.get(*self)) {
            V::Nan => f32::NAN,
            V::Inf(s) => if s { f32::NEG_INFINITY } else { f32::INFINITY },
            _ => self.concretise()?.to_f64() as f32,
        })
    }
    fn to_f64(&self) -> Option<f64> {
        Some(match eng(|e| e.get(*self)) {
            V::Nan => f64::NAN,
            V::Inf(s) => if s { f64::NEG_INFINITY } else { f64::INFINITY },
            _ => self.concretise()?.to_f64(),
        })
    }
}
impl NumCast for Sym {
    fn from<N: ToPrimitive>(n: N) -> Option<Sym> {
        // Same-type casts keep the symbolic value.
        if std::any::type_name::<N>() == std::any::type_name::<Sym>() {
            // SAFETY-free path: Sym is Copy and 4 bytes; go through the debug id
            let any: Box<N> = Box::new(n);
            let p = Box::into_raw(any) as *mut Sym;
            let s = unsafe { *p };
            unsafe { drop(Box::from_raw(p as *mut N)) };
            return Some(s);
        }
        let tn = std::any::type_name::<N>();
        if tn == "f32" || tn == "f64" {
            let f = n.to_f64()?;
            return Some(match Rat::from_f64(f) {
                Some(r) => Sym::from_rat(r),
                None if f.is_nan() => eng(|e| e.special(V::Nan)),
                None => eng(|e| e.special(V::Inf(f < 0.0))),
            });
        }
        if let Some(i) = n.to_i128() {
            return Some(Sym::from_rat(Rat::new(Int::from_i128(i), Int::S(1))));
        }
        n.to_f64().and_then(Rat::from_f64).map(Sym::from_rat)
    }
}
impl num_traits::FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(Sym::from_rat(Rat::int(n)))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(Sym::from_rat(Rat::new(Int::from_i128(n as i128), Int::S(1))))
    }
    fn from_f64(n: f64) -> Option<Sym> {
        <Sym as NumCast>::from(n)
    }
}
fn c64(x: f64) -> Sym {
    Sym::from_rat(Rat::from_f64(x).unwrap())
}
impl Float for Sym {
    fn nan() -> Sym {
        eng(|e| e.special(V::Nan))
    }
    fn infinity() -> Sym {
        eng(|e| e.special(V::Inf(false)))
    }
    fn neg_infinity() -> Sym {
        eng(|e| e.special(V::Inf(true)))
    }
    fn neg_zero() -> Sym {
        Sym::zero()
    }
    fn min_value() -> Sym {
        c64(f64::MIN)
    }
    fn min_positive_value() -> Sym {
        c64(f64::MIN_POSITIVE)
    }
    fn epsilon() -> Sym {
        c64(f64::EPSILON)
    }
    fn max_value() -> Sym {
        c64(f64::MAX)
    }
    fn is_nan(self) -> bool {
        eng(|e| e.get(self) == V::Nan)
    }
    fn is_infinite(self) -> bool {
        eng(|e| matches!(e.get(self), V::Inf(_)))
    }
    fn is_finite(self) -> bool {
        eng(|e| matches!(e.get(self), V::Num { .. }))
    }
    fn is_normal(self) -> bool {
        self.is_finite() && !self.is_zero()
    }
    fn classify(self) -> FpCategory {
        if self.is_nan() {
            FpCategory::Nan
        } else if self.is_infinite() {
            FpCategory::Infinite
        } else if self.is_zero() {
            FpCategory::Zero
        } else {
            FpCategory::Normal
        }
    }
    fn floor(self) -> Sym {
        self.unary_int(b'F', |e, p| Rat::new(e.floor_of(p), Int::S(1)))
    }
    fn ceil(self) -> Sym {
        -((-self).floor())
    }
    fn round(self) -> Sym {
        let h = Sym::from_rat(Rat::frac(1, 2));
        if self < Sym::zero() { -((-self + h).floor()) } else { (self + h).floor() }
    }
    fn trunc(self) -> Sym {
        if self < Sym::zero() { -((-self).floor()) } else { self.floor() }
    }
    fn fract(self) -> Sym {
        self - self.trunc()
    }
    fn abs(self) -> Sym {
        if self < Sym::zero() { -self } else { self }
    }
    fn signum(self) -> Sym {
        if self.is_nan() {
            self
        } else if self < Sym::zero() {
            -Sym::one()
        } else {
            Sym::one()
        }
    }
    fn is_sign_positive(self) -> bool {
        self >= Sym::zero()
    }
    fn is_sign_negative(self) -> bool {
        self < Sym::zero()
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        let r = self * a + b;
        eng(|e| {
            let v = e.get(r);
            let (x, y, z) = (e.get_fp(self), e.get_fp(a), e.get_fp(b));
            let f = e.fp_op(b'f', x, y, z);
            e.mk(v, f)
        })
    }
    fn recip(self) -> Sym {
        Sym::one() / self
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym::one();
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 { r.recip() } else { r }
    }
    fn powf(self, n: Sym) -> Sym {
        match eng(|e| e.const_of(n)) {
            Some(c) if c.is_int() => self.powi(c.trunc().to_i64().unwrap_or(0) as i32),
            _ => self.unsupported("powf"),
        }
    }
    fn sqrt(self) -> Sym {
        self.via_f64("sqrt", f64::sqrt)
    }
    fn exp(self) -> Sym {
        self.via_f64("exp", f64::exp)
    }
    fn exp2(self) -> Sym {
        self.via_f64("exp2", f64::exp2)
    }
    fn ln(self) -> Sym {
        self.via_f64("ln", f64::ln)
    }
    fn log(self, _: Sym) -> Sym {
        self.unsupported("log")
    }
    fn log2(self) -> Sym {
        self.via_f64("log2", f64::log2)
    }
    fn log10(self) -> Sym {
        self.via_f64("log10", f64::log10)
    }
    fn max(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self < o { o } else { self }
    }
    fn min(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if o < self { o } else { self }
    }
    fn abs_sub(self, o: Sym) -> Sym {
        if self <= o { Sym::zero() } else { self - o }
    }
    fn cbrt(self) -> Sym {
        self.via_f64("cbrt", f64::cbrt)
    }
    fn hypot(self, _: Sym) -> Sym {
        self.unsupported("hypot")
    }
    fn sin(self) -> Sym {
        self.via_f64("sin", f64::sin)
    }
    fn cos(self) -> Sym {
        self.via_f64("cos", f64::cos)
    }
    fn tan(self) -> Sym {
        self.via_f64("tan", f64::tan)
    }
    fn asin(self) -> Sym {
        self.via_f64("asin", f64::asin)
    }
    fn acos(self) -> Sym {
        self.via_f64("acos", f64::acos)
    }
    fn atan(self) -> Sym {
        self.via_f64("atan", f64::atan)
    }
    fn atan2(self, _: Sym) -> Sym {
        self.unsupported("atan2")
    }
    fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    fn exp_m1(self) -> Sym {
        self.via_f64("exp_m1", f64::exp_m1)
    }
    fn ln_1p(self) -> Sym {
        self.via_f64("ln_1p", f64::ln_1p)
    }
    fn sinh(self) -> Sym {
        self.via_f64("sinh", f64::sinh)
    }
    fn cosh(self) -> Sym {
        self.via_f64("cosh", f64::cosh)
    }
    fn tanh(self) -> Sym {
        self.via_f64("tanh", f64::tanh)
    }
    fn asinh(self) -> Sym {
        self.via_f64("asinh", f64::asinh)
    }
    fn acosh(self) -> Sym {
        self.via_f64("acosh", f64::acosh)
    }
    fn atanh(self) -> Sym {
        self.via_f64("atanh", f64::atanh)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        self.unsupported("integer_decode")
    }
}

impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::one(), |a, b| a * b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym::zero(), |a, b| a + *b)
    }
}
impl<'a> std::iter::Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym::one(), |a, b| a * *b)
    }
}
impl num_traits::MulAdd for Sym {
    type Output = Sym;
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        Float::mul_add(self, a, b)
    }
}
impl num_traits::Bounded for Sym {
    fn min_value() -> Sym {
        <Sym as Float>::min_value()
    }
    fn max_value() -> Sym {
        <Sym as Float>::max_value()
    }
}
