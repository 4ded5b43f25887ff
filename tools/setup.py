#!/usr/bin/env python3
"""Builds the harnesses once (the checks rebuild what /repo's current tree needs)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import concurrent.futures
import symx_check, kani_check
bad = 0
t = time.time()
with concurrent.futures.ThreadPoolExecutor(2) as p:
    rs = list(p.map(lambda v: symx_check.build("fma" if v == "fma" else "", symx_check.binary(v)), ["default", "fma"]))
for ok, msg in rs:
    print(msg if ok else "FAILED: " + msg)
    bad |= not ok
print(f"{time.time() - t:.0f} s")
for crate in ("kanix", "kpy"):
    progs, err = kani_check.build(crate, sorted({g for pr in ("C14", "C15", "C23", "C25") if kani_check.CRATES[pr] == crate for g, h, s in kani_check.plan(pr, "quick")[0]}))
    print(f"{crate}: goto programs built" if progs else f"FAILED: {err}")
    exe, err = kani_check.native_binary(crate)
    print(f"{crate}: replay program built" if exe else f"FAILED: {err}")
    bad |= not progs or not exe
print(f"{time.time() - t:.0f} s")
sys.exit(1 if bad else 0)
