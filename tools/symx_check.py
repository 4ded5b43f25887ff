"""Engine A: symbolic execution of the Rust crate (symx) for C01-C13, C16-C20."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, time
from common import VERIF, REPO, BUILD, cargo_env, tree_hash, run, Outcome

SYMX = os.path.join(VERIF, "symx")
BOUNDS = {
    "C01": "1-8 dimensions, axis lengths 2-6 (plus 257, 300, 65539 with a symbolic window); observations up to 2.5 cells outside symbolically and up to 2^31 cells in the listed windows; N>=4 with one or two symbolic axes and a rank-1 symbolic table",
}
GENERIC_BOUNDS = (
    "dimension counts and axis lengths as listed under scenario families; table values symbolic in [-8,8]; symbolic grid coordinates "
    "between 1/4 and 4 per gap (times 2^e where *2^e is shown); observation windows as listed (x=(*) reaches 2.5 cells outside the grid, "
    "0.75 when there are several axes); arithmetic is exact real arithmetic (the float operation tree is kept beside it for bit-for-bit claims)"
)


def build(features, out):
    """Rebuild the harness with /repo's current sources (incremental if an earlier build is there)."""
    target = os.path.join(BUILD, "symx-" + (features or "default"))
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "stamp")
    h = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(SYMX, "src"), os.path.join(SYMX, "Cargo.toml"), os.path.join(VERIF, "symcore")])
    if os.path.exists(stamp) and os.path.exists(out) and open(stamp).read() == h:
        return True, "up to date"
    # what is up to date is decided by content, not by modification time
    for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "*")):
        if os.path.basename(d).startswith(("interpn-", "symx-", "symcore-")):
            shutil.rmtree(d)
    cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", target]
    if features:
        cmd += ["--features", features]
    env = cargo_env()
    # most of the build is type checking the crate's unrolled code: nightly's parallel front end halves it
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["RUSTFLAGS"] = "-Zthreads=6"
    rc, so, se = run(cmd, cwd=SYMX, env=env, timeout=300)
    if rc != 0:
        env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
        del env["RUSTFLAGS"]
        rc, so, se = run(cmd, cwd=SYMX, env=env, timeout=400)
    if rc != 0:
        return False, se[-4000:]
    shutil.copy2(os.path.join(target, "debug", "symx"), out)
    open(stamp, "w").write(h)
    return True, "built"


def binary(var):
    return os.path.join(BUILD, "symx-" + var, "symx-bin")


def family(name):
    """scenario name without seeds and concrete positions"""
    n = re.sub(r"#[0-9a-f]+", "", name)
    n = re.sub(r"-?\d+\+\d/8", "c", n)
    n = re.sub(r"corner [01]+", "corner", n)
    n = re.sub(r"node \[.*?\]|node \d+", "node", n)
    return n


def check(prop, tier, seed):
    o = Outcome(prop, tier, seed)
    quick = tier == "quick"
    t0 = time.time()
    variants = {"default": "", "fma": "fma"}
    pool = concurrent.futures.ThreadPoolExecutor(2)
    jobs = {v: pool.submit(build, f, binary(v)) for v, f in variants.items()}
    tot = dict(paths=0, forks=0, forced=0, asserts=0, trivial=0, discharged=0, discharged_tol=0, inconclusive=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, native=0, validated=0, ops=0, fp_mismatch=0)
    funcs, fams, samples, undecided, native_bad, partial = set(), {}, [], [], [], []
    planned = done = total = canaries = 0
    dead = []
    for var in variants:
        ok, msg = jobs[var].result()
        if not ok:
            o.error(f"the harness does not build against /repo ({var}): {msg}")
            continue
        o.note(f"build_{var}_s", round(time.time() - t0, 1))
        js = os.path.join(BUILD, f"{prop}-{var}-{os.getpid()}.json")
        cmd = [binary(var), "--prop", prop, "--tier", tier, "--seed", str(seed), "--json", js]
        if quick:
            cmd += ["--budget", "200", "--cap", "60"] if var == "default" else ["--budget", "60", "--cap", "20", "--every", "3", "--max-dims", "6"]
        else:
            cmd += ["--budget", "7200", "--cap", "1200"] if var == "default" else ["--budget", "3600", "--cap", "600"]
        if var == "fma":
            cmd += ["--canaries", "0"]
        env = dict(os.environ, VERIF_SEED=str(seed))
        rc, so, se = run(cmd, cwd=VERIF, env=env, timeout=400 if quick else 14400)
        if not os.path.exists(js):
            o.error(f"symx ended without a report ({var}, rc {rc}): {se[-1500:]}")
            continue
        d = json.load(open(js))
        os.remove(js)
        planned += d["planned"]
        total += d["total"]
        canaries += d["canaries"]
        dead += d["canaries_dead"]
        for s in d["scenarios"]:
            for k in tot:
                tot[k] += s[k]
            funcs.update(s["funcs"])
            name = s["name"] + (" [fma]" if var == "fma" else "")
            if s["partial"]:
                partial.append(name)
            elif not s["problems"]:
                done += 1
            native_bad += [f"{name}: {b}" for b in s["native_bad"]]
            f = family(s["name"])
            fams[f] = fams.get(f, 0) + 1
            for p in s["problems"]:
                undecided.append(f"{name}: {p}")
            if s["sample"] and len(samples) < 4 and (len(samples) == 0 or s["paths"] > 1):
                samples.append({"scenario": name, "paths": s["paths"], "asserts": s["asserts"], "first_query": s["sample"]})
            if s["violation"]:
                v = s["violation"]
                o.violation(
                    key=f"{family(v['scenario'])} :: {v['label']}",
                    text=f"{v['scenario']} [{var}, {v['type']}]: {v['label']}: {v['detail']}",
                    replay="\n".join(
                        [f"# property {prop}; engine symx; variant {var}; tier {tier}; seed {seed}", f"# {v['label']}: {v['detail']}",
                         f"# replay: python3 tools/check.py --replay <this file>", v["scenario"], v["type"]]
                        + [f"{n} {bits} {txt}" for n, txt, bits in v["inputs"]]) + "\n",
                )
        if o.violations:
            break
    solver = subprocess.run(["z3-new", "--version"], capture_output=True, text=True).stdout.strip()
    o.level = "model_checking"
    o.coverage = {
        "states": tot["paths"],
        "transitions": tot["forks"] + tot["forced"],
        "traces_validated_against_impl": tot["validated"],
        "samples": samples,
        "technique": "symbolic execution of the compiled crate with a symbolic scalar type; every assertion decided by z3 or by the normal form of the polynomial both sides reduce to",
        "solver": solver,
        "scenarios_planned": planned, "scenarios_available": total, "scenarios_fully_decided": done,
        "assertions": tot["asserts"], "assertions_discharged_exactly": tot["discharged"], "assertions_discharged_within_tolerance": tot["discharged_tol"],
        "assertions_closed_by_normal_form": tot["trivial"],
        "assertions_undecided": tot["inconclusive"],
        "solver_queries": tot["queries"], "solver_sat": tot["sat"], "solver_unsat": tot["unsat"], "solver_unknown": tot["unknown"],
        "solver_s": round(tot["solver_s"], 1), "symbolic_operations": tot["ops"], "native_replays_of_candidates": tot["native"],
        "vacuity_checks": canaries, "vacuity_checks_that_did_not_fire": dead,
        "functions_encoded": sorted(funcs),
        "feature_variants": ["default", "fma"],
        "bounds": GENERIC_BOUNDS,
        "scenario_families": dict(sorted(fams.items())[:400]),
        "scenario_family_count": len(fams),
        "not_fully_explored": partial[:50], "not_fully_explored_count": len(partial),
        "not_started": planned - done - len(partial) - len({u.split(": ")[0] for u in undecided}) if not o.violations else None,
        "undecided": undecided[:30], "undecided_count": len(undecided),
        "native_validations_lost_to_rounding": native_bad[:10], "native_validations_lost_to_rounding_count": len(native_bad),
        "bit_for_bit_claims_with_different_operation_trees": tot["fp_mismatch"],
    }
    o.assumptions = [
        "f32/f64 arithmetic is modelled as exact real arithmetic; rounding is covered by the stated tolerance and by native replays only",
        "the symbolic scalar implements num_traits::Float faithfully (symcore); candidates count only when reproduced natively in f64 or f32",
        "soundness of z3 and of rustc's monomorphisation of the generic code for a type other than f32/f64 (floor, casts and comparisons behave alike)",
    ]
    if dead:
        o.error("an assertion made false was not reported (vacuous scenario): " + "; ".join(dead[:3]))
    if not o.violations and done < 0.4 * planned:
        o.error(f"only {done} of {planned} scenarios could be decided: " + "; ".join(undecided[:3]))
    return o


def replay(path):
    txt = open(path).read()
    m = re.search(r"variant (\w+); tier (\w+); seed (\d+)", txt)
    p = re.search(r"property (\w+)", txt).group(1)
    var, tier, seed = m.groups()
    out = binary(var)
    ok, msg = build("fma" if var == "fma" else "", out)
    if not ok:
        print(msg)
        return 2
    return subprocess.run([out, "--prop", p, "--tier", tier, "--seed", seed, "--replay", path]).returncode
