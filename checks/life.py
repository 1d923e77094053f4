"""Start-up, termination and instrumentation callbacks of the runtime, tracing API calls kept as calls."""
from .rt import *
from engine import llvmc
_m = {}
ENTRY = re.compile(r"^(__taint_start|__dfsw_exit|__dfsw___assert_fail|__polytracker_\w+|__dfsw___polytracker_\w+)$")
INTEREST = re.compile(r"^taintdag::PolyTracker::|taintdag::error_exit<|^(atexit|__cxa_atexit|at_quick_exit|on_exit|exit|_exit|_Exit|abort|quick_exit|__assert_fail)$")
def module(extra=()):
    if "m" not in _m:
        srcs = cxx.runtime_sources()
        M = prep.prepare(cxx.compile_many([(s, None) for s in srcs]), [ENTRY], [API, STDHEAVY])
        M.sources = srcs; _m["m"] = M
        for r in ("__taint_start", "__dfsw_exit", "__dfsw___assert_fail"):
            if r not in M.rootset: raise AnalysisBroken(f"{r} is not defined in the runtime")
    return _m["m"]
def callee(I):
    c = I.callee
    return c if isinstance(c, str) else getattr(c, "name", None)
def boring(also=None):
    """instructions that neither use the tracing object, end or register the end of the program, nor publish state"""
    def f(I):
        if I.op in ("call", "invoke"):
            n = callee(I)
            if n is None: return False
            d = llvmc.demangle(n)
            return not INTEREST.search(d) and not (also and also.search(d))
        return I.op not in ("atomicrmw", "cmpxchg", "fence", "ret")
    return f
def run(M, fn, also=None, **kw):
    key = (fn, getattr(also, "pattern", None), tuple(sorted(kw)))
    if key not in _m: _m[key] = analyze(M, fn, skip=boring(also), **kw)
    return _m[key]
def tracing(p, name=r"\w+"): return [e for e in p.calls() if e.dname and re.match(r"(std::\S+ )?taintdag::PolyTracker::" + name + r"\(", e.dname)]
def glob(t):
    b = base_of(t) if isinstance(t, Lin) else None
    return b[1] if b and b[0] == "glob" and sub(t, atom(b, 64)).const and sub(t, atom(b, 64)).c == 0 else None
