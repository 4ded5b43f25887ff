"""Engine B: bounded model checking (Kani's code generator + CBMC) for C14, C15, C23 and C25."""
import concurrent.futures, glob, json, os, re, shlex, shutil, subprocess, threading, time
from common import VERIF, REPO, BUILD, cargo_env, tree_hash, run, Outcome

CRATES = {"C14": "kanix", "C15": "kanix", "C23": "kpy", "C25": "kanix"}
TARGET = os.path.join(BUILD, "kani")
KANI = sorted(glob.glob("/root/.kani/kani-*"))[-1] if glob.glob("/root/.kani/kani-*") else "/root/.kani/kani-0.68.0"
CBMC = os.path.join(KANI, "bin", "cbmc")
GOTOCC = os.path.join(KANI, "bin", "goto-cc")
CARGO = os.path.join(KANI, "toolchain", "bin", "cargo")
VER = os.path.basename(KANI).split("-")[1]
TRIPLE = "x86_64-unknown-linux-gnu"
MEM_KB = 24_000_000


def kx(crate):
    return os.path.join(VERIF, crate)


def groups(crate):
    """group -> [harness] from the harness table in the crate's src/lib.rs"""
    out, cur = {}, None
    for l in open(os.path.join(kx(crate), "src", "lib.rs")):
        m = re.match(r'    "(\w+)" (?:\w+ )?\{', l)
        if m:
            cur = out.setdefault(m.group(1), [])
            continue
        m = re.match(r"        (c\d\d_\w+): \w", l)
        if m and cur is not None:
            cur.append(m.group(1))
    return out


def src_hash(crate):
    d = kx(crate)
    return tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")] + [os.path.join(d, x) for x in ("src", "Cargo.toml", "pyo3", "numpy", "pymacros") if os.path.exists(os.path.join(d, x))])


def compiler_cmd(crate, target, features):
    """Build the dependencies (interpn among them) with Kani's compiler; return the command line cargo used for the harness crate itself."""
    flags = ["-Coverflow-checks=on", "-Zunstable-options", "-Ztrim-diagnostic-paths=no", "-Zhuman_readable_cgu_names", "-Zalways-encode-mir", "--cfg=kani",
             "-Zcrate-attr=feature(register_tool)", "-Zcrate-attr=register_tool(kanitool)", "--force-warn", "unstable_features",
             "--sysroot", KANI, "-L", KANI + "/lib", "--extern", "force:kani", "--extern", f"noprelude,nounused:std={KANI}/lib/libstd.rlib",
             "-Cpanic=abort", "-Csymbol-mangling-version=v0", "-Zpanic_abort_tests=yes", "-Zmir-enable-passes=-RemoveStorageMarkers",
             "--check-cfg=cfg(kani)", "-Clinker=echo", "-Zthreads=6", "--kani-compiler", f"-Cllvm-args=--check-version={VER}"]
    env = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env.update(CARGO_ENCODED_RUSTFLAGS="\x1f".join(flags), CARGO_TERM_PROGRESS_WHEN="never", RUSTC=os.path.join(KANI, "bin", "kani-compiler"), RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true")
    env["LD_LIBRARY_PATH"] = os.path.join(KANI, "toolchain", "lib")
    cmd = [CARGO, "rustc", "--offline", "--locked", "--target", TRIPLE, "-Zhost-config", "-Ztarget-applies-to-host", '--config=host.rustflags=["--cfg=kani_host"]',
           "--target-dir", target, "-v", "-p", crate, "--lib"]
    if features:
        cmd += ["--features", features]
    cmd += ["--", "-Cllvm-args=--reachability=harnesses --log-level=info -Z unstable-options"]
    rc, so, se = run(cmd, cwd=kx(crate), env=env, timeout=420)
    if rc != 0:
        return None, env, (so + se)[-4000:]
    m = [l for l in se.splitlines() if "kani-compiler" in l and f"--crate-name {crate} " in l]
    if not m:
        return None, env, "no command line for the harness crate in cargo's output"
    return shlex.split(re.search(r"`(.*)`", m[-1]).group(1)), env, ""


def build(crate, names, variant=""):
    """goto programs of the named groups, from /repo's current tree; returns {group: path}, error"""
    target = os.path.join(TARGET, variant or ("default" if crate == "kanix" else crate))
    os.makedirs(target, exist_ok=True)
    h = src_hash(crate) + VER
    stamp = os.path.join(target, "stamp")
    if not (os.path.exists(stamp) and open(stamp).read() == h):
        for d in [os.path.join(target, "goto")] + glob.glob(os.path.join(target, "*", "debug", "build", "interpn")):
            shutil.rmtree(d, ignore_errors=True)
        open(stamp, "w").write(h)
    gdir = os.path.join(target, "goto")
    out = {g: os.path.join(gdir, g + ".out") for g in names}
    todo = [g for g in names if not os.path.exists(out[g])]
    if not todo:
        return out, ""
    for d in glob.glob(os.path.join(target, "*", "debug", "build", crate)) + glob.glob(os.path.join(target, "debug", "build", crate)):
        shutil.rmtree(d, ignore_errors=True)
    cmd, env, err = compiler_cmd(crate, target, variant)
    if cmd is None:
        return None, err
    def one(g):
        d = os.path.join(gdir, g + ".d")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        c, i = [], 0
        while i < len(cmd):
            if cmd[i] == "--out-dir":
                c += ["--out-dir", d]
                i += 2
            elif cmd[i] == "-C" and cmd[i + 1].startswith("incremental="):
                i += 2
            else:
                c.append(cmd[i])
                i += 1
        c += ["--cfg", f'feature="{g}"']
        for attempt in (1, 2, 3):
            if attempt == 1:
                rc, so, se = run(c, cwd=kx(crate), env=env, timeout=600)
            else:
                with alone:
                    rc, so, se = run(c, cwd=kx(crate), env=env, timeout=600)
            if rc == 0 or '"level":"error"' in se or "error:" in se:
                break
            # the compiler ended without a message (out of memory): once more, one at a time
        sym = glob.glob(os.path.join(d, "*.symtab.out"))
        if rc != 0 or len(sym) != 1:
            return f"{g}: code generation failed: " + "\n".join(l for l in se.splitlines() if "error" in l)[:600] + se[-900:]
        rc, so, se = run([GOTOCC, sym[0], os.path.join(KANI, "library", "kani", "kani_lib.c"), "-o", out[g] + ".tmp"], timeout=600)
        if rc != 0:
            return f"{g}: goto-cc failed: {se[-1500:]}"
        os.rename(out[g] + ".tmp", out[g])
        shutil.rmtree(d, ignore_errors=True)
        return ""
    alone = threading.Lock()
    with concurrent.futures.ThreadPoolExecutor(7) as p:
        errs = [e for e in p.map(one, sorted(todo)) if e]
    return (None, "; ".join(errs)) if errs else (out, "")


HEAP = ["__rust_alloc", "__rust_alloc_zeroed", "__rust_realloc"]
HEAP_ARGS = [a for f in HEAP for a in ("--property", f + ".assertion.1")]


def heapify(progs):
    """C25: the same goto programs with the allocator replaced by an assertion that it is never reached"""
    gi = os.path.join(KANI, "bin", "goto-instrument")
    def one(g):
        src, dst = progs[g], progs[g][:-4] + ".heap"
        if os.path.exists(dst) and os.path.getmtime(dst) >= os.path.getmtime(src):
            return g, dst, ""
        a = f"{dst}.{os.getpid()}"
        rc, so, se = run([gi] + [x for f in HEAP for x in ("--remove-function-body", f)] + [src, a], timeout=120)
        if rc == 0:
            rc, so, se = run([gi, "--generate-function-body", "__rust_(alloc|alloc_zeroed|realloc)", "--generate-function-body-options", "assert-false", a, a + "b"], timeout=120)
        if rc == 0:
            os.rename(a + "b", dst)
        for x in (a, a + "b"):
            if os.path.exists(x):
                os.remove(x)
        return g, dst, "" if rc == 0 else f"{g}: goto-instrument failed: {(so + se)[-600:]}"
    out, errs = {}, []
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        for g, d, e in p.map(one, sorted(progs)):
            out[g] = d
            if e:
                errs.append(e)
    return (None, "; ".join(errs)) if errs else (out, "")


LINE = re.compile(r"^\[(.*)\] line (\d+) (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def cbmc(prog, harness, unwind, timeout, extra=()):
    cmd = f"ulimit -v {MEM_KB}; exec timeout -k 5 {int(timeout)} {CBMC} {prog} --function {harness} --no-standard-checks --unwinding-assertions --object-bits 12 --slice-formula --sat-solver cadical --verbosity 8 --unwind {unwind} " + " ".join(extra)
    t0 = time.time()
    rc, so, se = run(["bash", "-c", cmd], timeout=timeout + 30)
    return rc, so, se, time.time() - t0


_REC = {}


def recursion_bounds(prog):
    """Functions of the crate that call themselves are unrolled to their dimension count (the last
    constant of the mangled name); unwinding assertions decide whether that was enough."""
    if prog not in _REC:
        rc, so, se = run([os.path.join(KANI, "bin", "goto-instrument"), "--call-graph", prog], timeout=120)
        b = []
        for l in so.splitlines():
            w = l.split()
            if len(w) == 3 and w[1] == "->" and w[0] == w[2] and "7interpn" in w[0]:
                m = re.findall(r"Kj([0-9a-f]+)_", w[0])
                if m:
                    b.append(f"{w[0]}:{int(m[-1], 16)}")
        _REC[prog] = ["--unwindset", ",".join(b)] if b else []
    return _REC[prog]


def solve(prog, harness, timeout, only=(), first=None):
    """dict(status: ok|fail|open, failures, covers, dead, props, time, functions)"""
    bounds = recursion_bounds(prog)
    left = timeout
    first = first or (5 if bounds else 13)
    tries = [(first, bounds)] + ([(13, bounds)] if first < 13 else []) + [(26, [])]
    total = 0.0
    for u, ub in tries:
        rc, so, se, dt = cbmc(prog, harness, u, left, list(ub) + list(only))
        left = max(10, left - dt)
        total += dt
        dt = total
        res = dict(harness=harness, unwind=u, extra=ub, rc=rc, time=round(dt, 1), failures=[], covers=0, dead=[], props=0, steps=0, vccs=0, funcs=set(), why="")
        fn = ""
        unw, seen = [], {}
        for l in so.splitlines():
            m = LINE.match(l)
            if not m:
                m2 = re.match(r"^(\S+) function (.*)$", l)
                if m2:
                    fn = m2.group(2)
                    if "/repo/src" in m2.group(1):
                        res["funcs"].add(re.sub(r"::<.*?>+", "", fn))
                continue
            pid, line, desc, st = m.groups()
            res["props"] += 1
            if ".cover." in pid or desc.startswith("cover condition"):
                # other instances of the same code in the program are not entered by this harness
                if (desc, line) not in seen:
                    res["covers"] += 1
                seen[desc, line] = seen.get((desc, line), False) or st == "FAILURE"
                res["dead"] = [f"{harness}: {d} (line {n})" for (d, n), live in seen.items() if not live]
            elif st == "FAILURE":
                if "unwind" in pid or "unwinding assertion" in desc or "recursion" in pid:
                    unw.append((pid, line, desc, fn))
                else:
                    res["failures"].append((pid, line, desc, fn))
            elif st != "SUCCESS":
                res["why"] = f"{pid}: {st}"
        m = re.search(r"size of program expression: (\d+) steps", so)
        n = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", so)
        if m and n:
            res["steps"], res["vccs"] = int(m.group(1)), int(n.group(2))
        if "VERIFICATION" not in so:
            res["why"] = f"no verdict (rc {rc}): " + (so + se)[-200:].replace("\n", " ")
        if res["failures"]:
            res["status"] = "fail"
            return res
        if unw and (u, ub) != tries[-1]:
            continue
        if unw:
            res["why"] = "not fully unrolled: " + unw[0][0]
        res["status"] = "open" if res["why"] else "ok"
        return res
    return res


def witness(prog, harness, unwind, extra, pid, timeout):
    """the choices of the counterexample, in order"""
    rc, so, se, dt = cbmc(prog, harness, unwind, timeout, list(extra) + ["--trace", "--json-ui", "--property", f"'{pid}'"])
    try:
        data = json.loads(so)
    except ValueError:
        return None
    vals = []
    for part in data:
        for r in part.get("result", []) if isinstance(part, dict) else []:
            pending = False
            for st in r.get("trace", []):
                if st.get("stepType") == "function-call":
                    pending = st.get("function", {}).get("displayName", "").endswith("src::k::witness")
                elif pending and st.get("stepType") == "assignment":
                    b = st.get("value", {}).get("binary")
                    vals.append(int(b, 2) if b else int(re.sub(r"[^0-9].*$", "", st.get("value", {}).get("data", "0")) or 0))
                    pending = False
            if vals or r.get("trace"):
                return vals
    return vals


# ------------------------------------------------------------------ the check

def native_binary(crate):
    """the harness crate compiled normally: replays the recorded choices of a counterexample on f64 and f32"""
    target = os.path.join(BUILD, crate + "-native")
    os.makedirs(target, exist_ok=True)
    stamp, exe = os.path.join(target, "stamp"), os.path.join(target, "debug", crate)
    h = src_hash(crate)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe, ""
    for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "*")):
        if os.path.basename(d).startswith(("interpn-", crate + "-", "numpy-", "pyo3-", "pymacros-")):
            shutil.rmtree(d)
    rc, so, se = run(["cargo", "build", "--offline", "--locked", "--target-dir", target], cwd=kx(crate), env=cargo_env(), timeout=400)
    if rc != 0:
        return None, se[-3000:]
    open(stamp, "w").write(h)
    return exe, ""


def confirm(exe, harness, vals, tries=20000, heap=False):
    env = dict(os.environ)
    if heap:
        env["KANIX_HEAP"] = "1"
    rc, so, se = run([exe, harness, str(tries), ",".join(map(str, vals or []))], env=env, timeout=120)
    return rc == 1 and "CONFIRMED" in so and "NOT-CONFIRMED" not in so, (so + se).strip()[-1500:]


def plan(prop, tier):
    """[(group, harness, seconds allowed)], cheapest first, and the harnesses left to the other tier"""
    g = groups(CRATES[prop])
    pre = prop.lower() + "_"
    if prop == "C25":
        pre = ("c14_interp", "c14_1d", "c14_new", "c14_conv", "c14_bounds", "c15_", "c25_")
    allh = [(grp, h) for grp in g for h in g[grp] if h.startswith(pre)]
    costs = {}
    for l in open(os.path.join(kx("kanix"), "costs.txt")):
        w = l.split()
        if len(w) >= 2 and w[0].startswith("heap:") == (prop == "C25"):
            costs[w[0].removeprefix("heap:")] = float(w[1])
    cheapest = {}
    for grp, h in allh:
        fam = re.sub(r"_[0-9]+[a-z]*$", "", h)
        if h in costs and costs[h] < costs.get(cheapest.get(fam), 1e9):
            cheapest[fam] = h
    out, rest = [], []
    for grp, h in allh:
        c = costs.get(h, 999 if prop != "C23" else 1)
        if tier == "quick" and (c > QUICK_MAX[prop] or prop == "C25" and c > 6 and (h not in costs or h not in cheapest.values())):
            rest.append(h)
            continue
        out.append((c, grp, h))
    # longest first keeps the cores busy to the end
    out.sort(key=lambda x: -x[0])
    if tier == "thorough":
        out = [x for x in out if x[0] < 900] + [x for x in out if x[0] >= 900]
    return [(grp, h, (240 if prop != "C23" else 500) if tier == "quick" else 3600) for c, grp, h in out], rest


QUICK_MAX = {"C14": 20, "C15": 45, "C23": 50, "C25": 50}


def first_unwind():
    """harness -> the unwinding to begin with (third column of costs.txt); only a matter of speed, unwinding assertions decide"""
    out = {}
    for l in open(os.path.join(kx("kanix"), "costs.txt")):
        w = l.split()
        if len(w) == 3:
            out[w[0].removeprefix("heap:")] = int(w[2])
    return out


NOTE = {
    "C14": "Bounds: the lengths, counts and values named in kanix/src/bodies.rs and lib.rs (constructors: every length of every argument up to the stated maximum, arbitrary usize dimensions, arbitrary f64 steps and first grid points; convenience functions: 0 to 9 dimensions, one more array than dimensions, wrong lengths by -1/+1, one step of any class; batches of up to 2 points).",
    "C15": "Bounds: dimension counts and axis lengths as in kanix/src/lib.rs (up to 4-8 dimensions); every float is an arbitrary value of an abstract domain (sign, zero, infinite, NaN; comparisons, roundings and float-to-integer conversions are free within what any IEEE float could do), which contains every f32 and f64 bit pattern, so index arithmetic, overflow checks, slice bounds and unwraps are decided for all of them.",
    "C25": "The allocator functions are replaced by an assertion that they are never reached; the harnesses are those of C14 and C15 that construct, evaluate one point or a batch, call the convenience functions with a preallocated output, or check bounds (interpn_alloc and eval_alloc allocate by contract and are not among them). Bounds: as for C14 and C15. A harness that allocates for one value of its choices is decided as well and must be reported.",
    "C23": "Bounds: 0 to 9 grids and observation arrays (as many of both, one more or fewer, the combinations listed in kpy/src/lib.rs), each of length 0 or 1, other arrays of length 0 to 2, 0 to 2 dimension counts, every content, every combination of contiguous and strided arrays, every answer of the Rust function (which a recorder stands in for; the native runs compare with the real one).",
}


def check(prop, tier, seed):
    o = Outcome(prop, tier, seed)
    t0 = time.time()
    budget = 780 if tier == "quick" else 4 * 3600
    jobs, rest = plan(prop, tier)
    crate = CRATES[prop]
    with concurrent.futures.ThreadPoolExecutor(2) as p:
        nat = p.submit(native_binary, crate)
        progs, err = build(crate, sorted({g for g, h, t in jobs}))
        exe, nerr = nat.result()
    if progs is None:
        o.error("the harnesses do not compile against /repo: " + err)
    if exe is None:
        o.error("the replay program does not compile against /repo: " + nerr)
    heap = prop == "C25"
    if progs is not None and heap:
        progs, err = heapify(progs)
        if progs is None:
            o.error(err)
    if o.errors:
        return o
    o.note("build_s", round(time.time() - t0, 1))
    done, openh, dead, funcs, unconfirmed, skipped = [], [], [], set(), [], []
    covers = props = steps = vccs = 0
    samples, canary = [], []
    solver, times = 0.0, {}
    stop = threading.Event()

    firsts = first_unwind()

    def one(j):
        g, h, lim = j
        left = budget - (time.time() - t0)
        if stop.is_set() or left < 20:
            return h, None, None, None
        r = solve(progs[g], h, min(lim, left), HEAP_ARGS if heap else (), firsts.get(h))
        v = None
        if r.get("status") == "fail":
            # one representative per failing place; confirmed on real floats before it is reported
            for pid, line, desc, fn in r["failures"][:4]:
                left = max(30, min(lim, budget + 60 - (time.time() - t0)))
                vals = witness(progs[g], h, r["unwind"], r["extra"], pid, left)
                if heap:
                    desc = "heap allocation (" + fn + ")"
                ok, txt = confirm(exe, h, vals, heap=heap)
                if ok and h == "c25_canary":
                    return h, dict(r, status="canary"), None, g
                if ok:
                    v = (pid, line, desc, fn, vals, txt)
                    stop.set()
                    break
                v = v or (pid, line, desc, fn, vals, None)
        return h, r, v, g

    with concurrent.futures.ThreadPoolExecutor(8 if tier == "quick" else 6) as p:
        for h, r, v, g in p.map(one, jobs):
            if r is None:
                skipped.append(h)
                continue
            solver += r["time"]
            times[h] = r["time"]
            funcs |= r["funcs"]
            st = r.get("status", "open")
            if st == "ok":
                done.append(h)
                props += r["props"]
                steps += r["steps"]
                vccs += r["vccs"]
                if len(samples) < 4 and (r["vccs"] or heap):
                    samples.append(dict(harness=h, unwind=r["unwind"], assertions=r["props"], steps=r["steps"], vccs=r["vccs"], seconds=r["time"]))
                covers += r["covers"]
                dead += r["dead"]
            elif st == "canary":
                canary.append(h)
            elif st == "fail" and v and v[5]:
                pid, line, desc, fn, vals, txt = v
                o.violation(f"{h} {desc}", f"{prop}: {h}: {desc} ({fn} line {line}); natively: {txt.splitlines()[-1]}",
                            f"engine kani\nproperty {prop}\nharness {h}\nchoices {','.join(map(str, vals or []))}\nproperty-id {pid}\nassertion {desc}\nat {fn} line {line}\nnative {txt}\n")
            elif st == "fail":
                unconfirmed.append(f"{h}: {[x[2] for x in r['failures'][:3]]}")
            else:
                openh.append(f"{h}: {r['why'][:160]}")
    # the decided harnesses, run on real floats with arbitrary choices: harness and model must agree with the compiled code
    def native_runs(h):
        rc, so, se = run([exe, h, "40", ""], env=dict(os.environ, KANIX_HEAP="1") if heap else None, timeout=60)
        return h, rc, (so + se).strip()[-300:]
    traces = 0
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        for h, rc, txt in p.map(native_runs, sorted(done)):
            if rc == 0:
                traces += 80
            elif rc == 1 and not o.violations:
                o.error(f"{h} was decided by the solver but fails natively: {txt}")
    o.level = "model_checking"
    o.coverage = dict(
        states=steps, transitions=vccs, traces_validated_against_impl=traces, samples=samples,
        counts="states: steps of the unrolled programs; transitions: verification conditions left after simplification and decided by SAT; traces: native executions of the decided harnesses",
        explanation=f"Kani's code generator translates /repo's functions (all of what the harnesses reach, as compiled, with overflow checks) to a goto program; CBMC unrolls it completely and cadical decides every assertion, panic, overflow and slice bound for all values of the choices. {len(done)} of {len(jobs)} harnesses of this tier decided. {NOTE[prop]}",
        obligations=len(jobs), discharged=len(done), assertions=props, solver_queries=2 * len(done), solver_s=round(solver, 1), covers=covers,
        harnesses=sorted(done), functions_encoded=sorted(funcs)[:400],
    )
    o.note("inconclusive", openh)
    o.note("unconfirmed_counterexamples_of_the_abstraction", unconfirmed)
    o.note("not_reached_in_this_run", skipped)
    o.note("left_to_the_thorough_tier", rest)
    o.note("seconds_of_each_harness", dict(sorted(times.items(), key=lambda x: -x[1])))
    o.note("unreachable_covers", dead)
    o.assumptions = ["Kani's translation of the compiled crate and CBMC are correct", "outside the stated bounds nothing is claimed", {
        "C14": "evaluated points use one fixed observation, so that only the argument checks branch",
        "C15": "the abstract floats over-approximate f32 and f64 (a failure is reported only when it is reproduced on real floats)",
        "C25": "an allocation made by Rust code goes through the allocator functions of the language (__rust_alloc and its relatives)",
        "C23": "the stand-ins for pyo3 and numpy behave as the originals do where src/python.rs uses them",
    }[prop]]
    if heap and not canary and not o.violations:
        o.error("the harness that does allocate was not reported")
    if not done and not o.violations:
        o.error("no harness was decided: " + "; ".join(openh)[:1500])
    return o


def replay(path):
    d = dict(l.split(" ", 1) for l in open(path).read().splitlines() if " " in l)
    exe, err = native_binary(CRATES[d["property"]])
    if exe is None:
        print(err)
        return 2
    ok, txt = confirm(exe, d["harness"], [x for x in d.get("choices", "").split(",") if x], heap=d["property"] == "C25")
    print(txt)
    return 1 if ok else 0
