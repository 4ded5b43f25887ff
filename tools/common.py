import hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
os.makedirs(BUILD, exist_ok=True)


def cargo_env():
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    return env


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", "__pycache__", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
    return h.hexdigest()


def run(cmd, cwd=None, env=None, timeout=None, input=None):
    """returncode, stdout, stderr; 124 on timeout (the whole process group is ended)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL, text=True, errors="replace", start_new_session=True)
    try:
        so, se = p.communicate(input=input, timeout=timeout)
        return p.returncode, so, se
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        so, se = p.communicate()
        return 124, so, se


class Outcome:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.level = "other"
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.errors = []
        self.notes = {}

    def note(self, k, v):
        self.notes[k] = v

    def violation(self, key, text, replay):
        self.violations.append(dict(key=key, text=text, replay=replay))

    def error(self, text):
        self.errors.append(text)

    def finish(self):
        known = load_known(self.prop)
        fresh, listed = [], []
        for v in self.violations:
            m = next((k for k in known if k["match"] in v["key"] or k["match"] in v["text"]), None)
            (listed if m else fresh).append((v, m))
        cov = dict(self.coverage)
        cov.update(self.notes)
        if self.errors:
            cov["errors"] = self.errors
        if not cov:
            cov = {"explanation": "the check could not run"}
        if self.level == "other" and "explanation" not in cov:
            cov["explanation"] = "the check could not run: " + "; ".join(self.errors)[:500]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        seen = set()
        for v, m in listed:
            if m["match"] not in seen:
                seen.add(m["match"])
                print(f"KNOWN-FINDING: property={self.prop} {m['what']}")
        if fresh:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for i, (v, _) in enumerate(fresh[:5]):
                p = os.path.join(VERIF, "replays", f"{self.prop}-{hashlib.sha1(v['text'].encode()).hexdigest()[:10]}.txt")
                with open(p, "w") as f:
                    f.write(v["replay"])
                print(v["text"][:1500])
                print(f"VIOLATION property={self.prop} replay={p}", flush=True)
            return 1
        if self.errors:
            for e in self.errors:
                print("ERROR:", e[:4000])
            return 2
        c = self.coverage
        print(f"{self.prop}: held on everything explored ({ev['wall_s']} s; " + ", ".join(f"{k} {c[k]}" for k in ("states", "assertions", "solver_queries", "obligations", "discharged", "solver_s") if k in c) + ")")
        return 0


def load_known(prop):
    """known-findings.txt: lines `finding: property=<id> match=<substring of the violation key> :: <what fails>`;
    lines `fixed: ...` are history and suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=" + prop + " "):
                rest = l.split(" match=", 1)[1]
                m, what = rest.split(" :: ", 1)
                out.append(dict(match=m.strip(), what=what.strip()))
    return out
