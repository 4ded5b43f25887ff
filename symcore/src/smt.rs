//! Persistent SMT solver processes (z3-new, with cvc5 as a second opinion) driven over pipes.
use crate::big::{Int, Rat};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct SmtStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub restarts: u64,
}

pub struct Smt {
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub stats: SmtStats,
    pub log: bool,
}

impl Smt {
    pub fn new() -> Smt {
        Smt { child: None, stats: Default::default(), log: std::env::var("SYMX_LOG").is_ok() }
    }
    fn ensure(&mut self) {
        if self.child.is_none() {
            let bin = std::env::var("SYMX_Z3").unwrap_or_else(|_| "z3-new".into());
            let mut c = Command::new(bin)
                .args(["-in", "-smt2", "-memory:3000"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("cannot start z3-new");
            let i = c.stdin.take().unwrap();
            let o = BufReader::new(c.stdout.take().unwrap());
            self.child = Some((c, i, o));
        }
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
            self.stats.restarts += 1;
        }
    }
    /// One self-contained query. `body` holds declarations and assertions; `vars` are read back if sat.
    pub fn query(&mut self, logic: &str, body: &str, vars: &[String], timeout_ms: u64) -> (Res, Vec<(String, Rat)>) {
        let t0 = Instant::now();
        let r = self.query_inner(logic, body, vars, timeout_ms);
        self.stats.queries += 1;
        self.stats.time += t0.elapsed();
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                if self.log {
                    eprintln!("smt error: {e}");
                }
                self.kill();
                (Res::Unknown, vec![])
            }
        };
        match r.0 {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if self.log && t0.elapsed().as_millis() > 500 {
            eprintln!("slow query {:?} {} ms, {} bytes", r.0, t0.elapsed().as_millis(), body.len());
            if let Ok(d) = std::env::var("SYMX_DUMP") {
                let n = self.stats.queries;
                let _ = std::fs::write(format!("{d}/q{n}_{}.smt2", std::process::id()), format!("(set-logic {logic})\n{body}\n(check-sat)\n"));
            }
        }
        r
    }
    fn query_inner(&mut self, logic: &str, body: &str, vars: &[String], timeout_ms: u64) -> Result<(Res, Vec<(String, Rat)>), String> {
        self.ensure();
        let (_, i, o) = self.child.as_mut().unwrap();
        let w = |i: &mut ChildStdin, s: &str| i.write_all(s.as_bytes()).map_err(|e| e.to_string());
        w(i, "(reset)\n(set-option :print-success false)\n")?;
        w(i, &format!("(set-option :timeout {timeout_ms})\n(set-logic {logic})\n"))?;
        w(i, body)?;
        w(i, "\n(check-sat)\n(echo \"@done\")\n")?;
        i.flush().map_err(|e| e.to_string())?;
        let mut res = None;
        let mut err = None;
        loop {
            let mut l = String::new();
            if o.read_line(&mut l).map_err(|e| e.to_string())? == 0 {
                return Err("eof".into());
            }
            match l.trim() {
                "@done" => break,
                "sat" => res = Some(Res::Sat),
                "unsat" => res = Some(Res::Unsat),
                "unknown" | "timeout" => res = Some(Res::Unknown),
                x => err = Some(x.to_string()),
            }
        }
        if let Some(e) = err {
            // any error message makes the answer untrustworthy
            if std::env::var("SYMX_LOG").is_ok() {
                eprintln!("solver said: {e}\n{}", &body[..body.len().min(3000)]);
            }
            return Ok((Res::Unknown, vec![]));
        }
        let res = res.ok_or("no answer")?;
        if res != Res::Sat || vars.is_empty() {
            return Ok((res, vec![]));
        }
        let names = vars.join(" ");
        let mut txt = String::new();
        for pp in [false, true] {
            if pp {
                w(i, "(set-option :pp.decimal true)(set-option :pp.decimal_precision 30)\n")?;
            }
            w(i, &format!("(get-value ({names}))\n(echo \"@done\")\n"))?;
            i.flush().map_err(|e| e.to_string())?;
            txt.clear();
            loop {
                let mut l = String::new();
                if o.read_line(&mut l).map_err(|e| e.to_string())? == 0 {
                    return Err("eof".into());
                }
                if l.trim() == "@done" {
                    break;
                }
                txt += &l;
            }
            if !txt.contains("root-obj") {
                break;
            }
        }
        let m = parse_model(&txt).ok_or_else(|| format!("cannot parse model {txt}"))?;
        Ok((res, m))
    }
}
impl Drop for Smt {
    fn drop(&mut self) {
        self.kill();
    }
}

#[derive(Debug)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn parse_sx(s: &str) -> Option<Sx> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' | ' ' | '\n' | '\t' | '\r' => {
                if !cur.is_empty() {
                    stack.last_mut()?.push(Sx::A(std::mem::take(&mut cur)));
                }
                if c == '(' {
                    stack.push(vec![])
                } else if c == ')' {
                    let l = stack.pop()?;
                    stack.last_mut()?.push(Sx::L(l));
                }
            }
            c => cur.push(c),
        }
    }
    stack.pop()?.into_iter().next()
}
fn parse_dec(s: &str) -> Option<Rat> {
    let s = s.trim_end_matches('?');
    match s.split_once('.') {
        None => Some(Rat::new(Int::parse(s)?, Int::S(1))),
        Some((a, b)) => {
            let mut d = Int::S(1);
            for _ in 0..b.len() {
                d = d.mul(&Int::S(10));
            }
            let n = Int::parse(&format!("{}{}", a, b))?;
            Some(Rat::new(n, d))
        }
    }
}
fn num(s: &Sx) -> Option<Rat> {
    match s {
        Sx::A(a) => parse_dec(a),
        Sx::L(l) => match (&l[..], l.first()) {
            ([_, x], Some(Sx::A(op))) if op == "-" => Some(num(x)?.neg()),
            ([_, x, y], Some(Sx::A(op))) if op == "/" => {
                let d = num(y)?;
                if d.is_zero() { None } else { Some(num(x)?.div(&d)) }
            }
            _ => None,
        },
    }
}
fn parse_model(s: &str) -> Option<Vec<(String, Rat)>> {
    let mut r = vec![];
    if let Sx::L(l) = parse_sx(s)? {
        for e in l {
            if let Sx::L(p) = e {
                if let Sx::A(n) = &p[0] {
                    r.push((n.clone(), num(&p[1])?));
                }
            }
        }
    }
    Some(r)
}
