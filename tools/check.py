#!/usr/bin/env python3
"""python3 tools/check.py <PROPERTY> [quick|thorough]   |   python3 tools/check.py --replay FILE"""
import os, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
ENGINE_A = {f"C{i:02d}" for i in list(range(1, 14)) + list(range(16, 21))}


def main():
    if sys.argv[1] == "--replay":
        txt = open(sys.argv[2]).read()
        if "engine symx" in txt:
            import symx_check
            return symx_check.replay(sys.argv[2])
        if "engine kani" in txt:
            import kani_check
            return kani_check.replay(sys.argv[2])
        if "engine pysym" in txt:
            import py_check
            return py_check.replay(sys.argv[2])
        print("unknown replay file")
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop in ENGINE_A:
        import symx_check as m
    elif prop in ("C14", "C15", "C23", "C25"):
        import kani_check as m
    elif prop in ("C21", "C22", "C24"):
        import py_check as m
    else:
        print("no check for", prop)
        return 2
    return m.check(prop, tier, seed).finish()


if __name__ == "__main__":
    sys.exit(main())
