mod api;
mod ctx;
mod drive;
mod gens;
mod oracle;
mod props;

use std::collections::HashMap;
use std::io::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = opt("--prop").expect("--prop");
    let tier = opt("--tier").unwrap_or("quick".into());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: u64 = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(600);
    let threads: usize = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let thorough = tier == "thorough";
    let scens = props::scenarios(&prop, thorough, seed);
    if let Some(f) = opt("--replay") {
        // file: first line scenario, second line type, then name=bits(hex) pairs
        std::process::exit(replay(&scens, &f));
    }
    let num = |k: &str, d: u64| opt(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let mut order: Vec<usize> = (0..scens.len()).filter(|i| opt("--only").is_none_or(|s| scens[*i].name().contains(&s))).collect();
    // a random order, so that a run that is cut short has still seen a bit of everything
    let mut r = gens::Rng::new(seed ^ 0x5eed);
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    // take one scenario in `every`, leaving out those with more than `max-dims` axes
    let every = num("--every", 1).max(1) as usize;
    let maxd = num("--max-dims", 99) as usize;
    let order: Vec<usize> = order.into_iter().filter(|i| gens::dims_in_name(&scens[*i].name()) <= maxd).enumerate().filter(|(k, _)| k % every == 0).map(|x| x.1).collect();
    let t0 = Instant::now();
    let cap = Duration::from_secs(num("--cap", 60));
    let reps = drive::run_all(&scens, &order, seed, Duration::from_secs(budget), cap, threads, opt("--keep-going").is_some());
    let wall = t0.elapsed().as_secs_f64();
    // vacuity: the smallest scenario of each kind with its assertions made false must be reported
    let (mut canaries, mut dead) = (0, vec![]);
    if reps.iter().all(|r| r.violation.is_none()) && num("--canaries", 1) > 0 {
        ctx::CANARY.store(true, std::sync::atomic::Ordering::SeqCst);
        let mut best: HashMap<String, (f64, usize)> = HashMap::new();
        let by_name: HashMap<String, usize> = scens.iter().enumerate().map(|(i, s)| (s.name(), i)).collect();
        for (r, i) in reps.iter().map(|r| (r, by_name[&r.scenario])) {
            let kind = r.scenario.split(' ').take(3).collect::<Vec<_>>().join(" ");
            let e = best.entry(kind).or_insert((f64::MAX, i));
            if r.wall_s < e.0 && !r.partial && r.stats.asserts > 0 {
                *e = (r.wall_s, i);
            }
        }
        let mut ix: Vec<usize> = best.values().map(|x| x.1).collect();
        ix.sort();
        ix.truncate(40);
        canaries = ix.len();
        for r in drive::run_all(&scens, &ix, seed, Duration::from_secs(60), Duration::from_secs(20), threads, true) {
            if r.violation.is_none() {
                dead.push(r.scenario);
            }
        }
        ctx::CANARY.store(false, std::sync::atomic::Ordering::SeqCst);
    }
    let mut out = String::from("{\"scenarios\":[\n");
    for (i, r) in reps.iter().enumerate() {
        if i > 0 {
            out += ",\n";
        }
        let s = &r.stats;
        out += &format!(
            "{{\"name\":{},\"paths\":{},\"forks\":{},\"forced\":{},\"asserts\":{},\"trivial\":{},\"discharged\":{},\"discharged_tol\":{},\"inconclusive\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"vars\":{},\"ops\":{},\"native\":{},\"fp_mismatch\":{},\"partial\":{},\"validated\":{},\"native_bad\":[{}],\"div_zero\":{},\"concretised\":{},\"max_query\":{},\"funcs\":[{}],\"reached\":[{}],\"problems\":[{}],\"sample\":{},\"violation\":{}}}",
            js(&r.scenario), s.paths, s.forks, s.forced, s.asserts, s.asserts_trivial, s.discharged, s.discharged_tol, s.inconclusive,
            r.queries, r.sat, r.unsat, r.unknown, r.solver_s, r.wall_s, r.vars, s.ops, r.native_runs, r.fp_mismatch, r.partial, r.validated, r.native_bad.iter().map(|f| js(f)).collect::<Vec<_>>().join(","), s.div_zero_paths, s.concretised, s.max_query_bytes,
            r.funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","),
            r.reached.iter().map(|f| js(f)).collect::<Vec<_>>().join(","),
            r.problems.iter().map(|f| js(f)).collect::<Vec<_>>().join(","),
            r.sample.as_ref().map(|x| js(x)).unwrap_or("null".into()),
            match &r.violation {
                None => "null".into(),
                Some(v) => format!(
                    "{{\"scenario\":{},\"label\":{},\"detail\":{},\"type\":{},\"inputs\":[{}]}}",
                    js(&v.scenario), js(&v.label), js(&v.detail), js(v.ty),
                    v.inputs.iter().map(|(n, x)| format!("[{},{},\"{:016x}\"]", js(n), js(&format!("{x:?}")), x.to_bits())).collect::<Vec<_>>().join(",")
                ),
            }
        );
    }
    out += &format!(
        "\n],\"planned\":{},\"total\":{},\"canaries\":{canaries},\"canaries_dead\":[{}],\"wall_s\":{wall:.3}}}\n",
        order.len(),
        scens.len(),
        dead.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
    match opt("--json") {
        Some(f) => std::fs::write(f, out).unwrap(),
        None => {
            let mut val = 0;
            let mut tot = (0, 0, 0, 0.0);
            for r in &reps {
                tot.0 += r.stats.paths;
                tot.1 += r.stats.asserts;
                tot.2 += r.queries;
                tot.3 += r.solver_s;
                val += r.validated;
                for b in &r.native_bad {
                    println!("native: {} {b}", r.scenario);
                }
                if !r.problems.is_empty() || r.violation.is_some() {
                    println!("{}: {:?} {:?}", r.scenario, r.problems, r.violation.as_ref().map(|v| (&v.label, &v.detail, &v.ty, v.inputs.iter().take(12).collect::<Vec<_>>())));
                }
            }
            println!("{} scenarios, {} paths, {} asserts, {} queries, solver {:.1}s, wall {wall:.1}s, validated {val} canaries {canaries}, dead {dead:?}", reps.len(), tot.0, tot.1, tot.2, tot.3);
        }
    }
    std::io::stdout().flush().unwrap();
}

fn replay(scens: &drive::Scens, f: &str) -> i32 {
    let txt = std::fs::read_to_string(f).expect("replay file");
    let mut lines = txt.lines().filter(|l| !l.starts_with('#'));
    let name = lines.next().unwrap().to_string();
    let ty = lines.next().unwrap().to_string();
    let mut m = HashMap::new();
    for l in lines {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() >= 2 {
            m.insert(p[0].to_string(), f64::from_bits(u64::from_str_radix(p[1], 16).unwrap()));
        }
    }
    let Some(sc) = scens.iter().find(|s| s.name() == name) else {
        println!("no scenario named {name}");
        return 2;
    };
    match drive::native(&**sc, &m, ty == "f32") {
        Err(()) => {
            println!("inputs violate an assumption of the scenario");
            2
        }
        Ok((fails, pan)) => {
            if let Some(p) = &pan {
                println!("panic: {p}");
            }
            for f in &fails {
                println!("FAIL {}: {}", f.label, f.detail);
            }
            if pan.is_some() || !fails.is_empty() { 1 } else { println!("holds natively"); 0 }
        }
    }
}
