"""Engine C: symbolic execution of the Python package (pysym) for C21, C22."""
import ast, json, os, time
from common import VERIF, REPO, BUILD, run, Outcome

RUN = os.path.join(VERIF, "pysym", "run.py")
PY = "/opt/vp/venv/bin/python"
if not os.path.exists(PY):
    PY = "/opt/veriftools/pyvenv/bin/python3"
FILES = {
    "C21": ["__init__.py"],
    "C22": ["multilinear_regular.py", "multilinear_rectilinear.py", "multicubic_regular.py", "multicubic_rectilinear.py", "nearest_regular.py", "nearest_rectilinear.py", "serialization.py"],
    "C24": ["multilinear_regular.py", "multilinear_rectilinear.py", "multicubic_regular.py", "multicubic_rectilinear.py", "nearest_regular.py", "nearest_rectilinear.py", "serialization.py"],
}


def env():
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", OMP_NUM_THREADS="1")
    e.pop("PYTHONPATH", None)
    return e


def functions(prop):
    out = []
    for f in FILES[prop]:
        try:
            t = ast.parse(open(os.path.join(REPO, "src", "interpn", f)).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.FunctionDef):
                out.append(f"{f}: {n.name}")
    return sorted(set(out))


def native(text, d):
    p = os.path.join(BUILD, f"py-native-{os.getpid()}.json")
    with open(p, "w") as f:
        f.write(text)
    rc, so, se = run([PY, RUN, "native", p], cwd=VERIF, env=env(), timeout=120)
    os.remove(p)
    return rc == 1 and "CONFIRMED" in so and "NOT-CONFIRMED" not in so, (so + se).strip()[-1500:]


def check(prop, tier, seed):
    o = Outcome(prop, tier, seed)
    js = os.path.join(BUILD, f"{prop}-{os.getpid()}.json")
    rc, so, se = run([PY, RUN, "check", prop, tier, js], cwd=VERIF, env=env(), timeout=840 if tier == "quick" else 7200)
    if not os.path.exists(js):
        o.error(f"the package could not be executed symbolically (rc {rc}): {se[-1500:]}")
        return o
    d = json.load(open(js))
    os.remove(js)
    st = d["stats"]
    unconfirmed, seen = [], set()
    for f in d["fails"]:
        key = f["what"]
        if key in seen:
            continue
        body = dict(f, engine="engine pysym")
        ok, txt = native(json.dumps(body), d)
        if not ok:
            unconfirmed.append(f"{f['what']} {f['config']}: {txt.splitlines()[-1] if txt else ''}"[:400])
            continue
        seen.add(key)
        o.violation(f"{f['kind']} {f['what']}", f"{prop}: {f['what']} with {f['config']}, {json.dumps(f['values'])[:700]}", json.dumps(body, indent=1) + "\n")
    o.level = "model_checking"
    o.coverage = dict(
        technique="symbolic execution of the Python package (numpy replaced by a symbolic array type, the compiled module by a recording stand-in with arbitrary results); every branch and requirement decided by z3",
        states=st.get("paths", 0), transitions=st.get("forks", 0), traces_validated_against_impl=d.get("validated", 0),
        samples=d.get("samples", []),
        configurations=d["configs"], requirements_proved=st.get("proved", 0), requirements_closed_by_simplification=st.get("trivial", 0),
        solver_queries=st.get("queries", 0), solver_s=round(st.get("solver_s", 0), 1), vacuity_checks=d.get("canaries", 0), vacuity_checks_that_did_not_fire=d.get("canaries_dead", []),
        functions_encoded=functions(prop),
        bounds=d.get("bounds", ""),
        paths_that_differ_with_the_real_numpy=d.get("validated_bad", []),
        unsupported_operations=d["unsupported"], paths_not_decided=st.get("unsupported", 0) + st.get("cut", 0),
        candidates=d["nfails"], candidates_not_reproduced_with_numpy=unconfirmed[:10],
    )
    o.assumptions = ["the stand-in for numpy behaves like numpy for the operations used (a candidate counts only when it is reproduced with the real numpy)",
                     "the compiled module behaves as stated in C23; pydantic runs as it is"]
    if d.get("canaries_dead"):
        o.error("a false requirement was not reported (vacuous configuration): " + "; ".join(d["canaries_dead"][:3]))
    if not o.violations and not d["samples"]:
        o.error("no path could be executed to its end: " + str(d["unsupported"])[:800])
    elif st.get("unsupported", 0):
        print(f"INCONCLUSIVE: {st['unsupported']} of {st['paths']} paths use operations the symbolic arrays do not have: {str(d['unsupported'])[:300]}")
    return o


def replay(path):
    ok, txt = native(open(path).read(), None)
    print(txt)
    return 1 if ok else 0
