#!/usr/bin/env python3
"""python3 run.py <property> [--tier quick|thorough]: decides one property on /repo's current tree."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from engine.cxx import AnalysisBroken
from engine.report import Report
from checks import REGISTRY

def main():
    ap = argparse.ArgumentParser()
    if "--selftest" in sys.argv:
        from engine import llvmc, cxx
        import tempfile
        src = os.path.join(cxx.scratch(), "t.cpp"); open(src, "w").write("extern int f(int); int g(int x) { return f(x) + 1; }")
        from engine import prep, absint
        M = prep.prepare([cxx.to_bc(src, ["-std=gnu++20"])], ["_Z1gi"])
        A = absint.analyze(M, "_Z1gi")
        ok = len(A.paths) == 1 and str(A.paths[0].ret).endswith(" + 1")
        print("selftest", "ok" if ok else "FAILED")
        return 0 if ok else 1
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    mod = importlib.import_module("checks." + REGISTRY[a.prop])
    rep = Report(a.prop, tier, seed)
    try:
        mod.check(rep)
        return rep.finish(mod)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={a.prop}: {e}")
        if any(not o[2] for o in rep.obs) and rep.finish(mod) == 1: return 1      # what was established before still stands
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={a.prop}: internal error")
        return 3
if __name__ == "__main__":
    sys.exit(main())
