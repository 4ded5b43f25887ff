#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "symbolic execution of the compiled crate (symbolic scalar type), SMT (z3)"
ALVL = ("Bounded: every path of the listed scenarios, all values of their symbolic inputs, decided by z3 over exact real arithmetic; "
        "both feature sets. Rounding is outside (tolerance and native replays only). Trusts symcore's Float model, z3, rustc.")
CHECKS = {f"C{i:02d}": (A, "model_checking", ALVL) for i in list(range(1, 14)) + list(range(16, 21))}
B = "bounded model checking of the compiled crate (Kani code generation, CBMC, cadical)"
BLVL14 = ("Bounded: every listed harness is completely unrolled and decided by SAT for all lengths, dimensions, steps and counts within its bounds "
          "(0-9 dimensions, lengths off by one, any f64 step class). Trusts Kani's code generator and CBMC.")
BLVL15 = ("Bounded: axis lengths and dimension counts per harness; every float is an arbitrary element of an abstract domain that contains all f32/f64 bit patterns, "
          "so a pass covers all of them; a failure counts only when reproduced natively. Trusts Kani's code generator, CBMC and the abstraction (kanix/src/absf_core.rs).")
C = "symbolic execution of the Python package (symbolic arrays), SMT (z3)"
CLVL = ("Bounded: every path of the listed configurations, all element values, flags and binding results within the stated ranges, decided by z3; "
        "candidates count only when reproduced with the real numpy. Trusts the numpy stand-in, z3 and (C24) CPython's printing and parsing of doubles.")
CHECKS["C14"] = (B, "model_checking", BLVL14)
CHECKS["C15"] = (B, "model_checking", BLVL15)
CHECKS["C23"] = (B, "model_checking", "Bounded: src/python.rs compiled against stand-ins for pyo3 and numpy, its calls into the crate recorded; every binding decided for 0-9 arrays of each kind, lengths 0-2, "
                 "all contents, contiguities and answers; failures are confirmed against the real Rust functions. Trusts the stand-ins, Kani's code generator and CBMC; pyo3's own conversions are outside.")
for _p in ("C21", "C22", "C24"):
    CHECKS[_p] = (C, "model_checking", CLVL)
CHECKS["C25"] = (B, "model_checking", "Bounded: the allocator functions replaced by an assertion that they are never reached, in every harness of C14 and C15 that constructs, evaluates or checks bounds (their bounds apply); "
                 "a harness that does allocate must be reported. Trusts Kani's code generator, CBMC and the float abstraction; building without the standard library is not part of the claim.")
NA = {}
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {"property": p, "quick_cmd": f"python3 tools/check.py {p} quick", "thorough_cmd": f"python3 tools/check.py {p} thorough",
         "technique": t, "level": l, "level_note": n}
        for p, (t, l, n) in sorted(CHECKS.items())
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in CHECKS],
    "notes": "No hooks in /repo: every harness uses the public API. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
