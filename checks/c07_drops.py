"""Path-sensitive analysis of every recording method (everything below it inlined): no returning path has been refused
section memory or a string, and every returning path has claimed the records its operation stands for."""
from .recorders import *
from .c06_section import fits, ptr
MIN_OBLIGATIONS = 60
NEEDS = {  # records a returning path must have stored (lookup of an untracked descriptor excepted)
 "open_file": ["Sources"], "create_taint_source": ["Sources"], "function_exit": ["Events"], "function_entry": ["Events"],
 "enter_function": ["ControlFlowLog"], "leave_function": ["ControlFlowLog"], "log_tainted_control_flow": ["ControlFlowLog"]}
def refused(p, secs, rs=()):
    """sections whose memory was refused on this path: the conditions say that start + n is past the end"""
    out = []
    for c in p.facts.conds:
        if c[0] not in ("ult", "ugt", "ule", "uge") or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
        x, y = (c[1], c[2]) if c[0] in ("ult", "ule") else (c[2], c[1])      # x < y  or  x <= y
        d = sub(y, x)
        for s in secs:
            ext = Lin(64, s.begin.c + 8, s.begin.t)
            lds = {a[1]: k for a, k in d.t if a[0] == "ld"}
            # y - x = pos + n - begin - extent > 0
            if lds.get(s.pos) == 1 and lds.get(ext) == -1 and lds.get(s.begin) == -1 and (c[0] in ("ult", "ugt") or d.sc <= 0 or len(d.t) > 3 or not any(r.sec is s for r in rs)): out.append(s)
    return out
def check(rep):
    M = module("api"); L = layout(M); secs = [x for x in L.values() if isinstance(x, Sec)]
    rep.assumptions += ["pthread mutexes behave as documented", "error_exit ends the program (C07 checks that it does)"]
    rep.rule("stops", "a path on which section memory or a string could not be stored ends the program with an error")
    rep.rule("stored", "a returning path has claimed every record the operation stands for")
    rep.rule("checked", "memory is used only after the reservation was granted")
    rep.rule("refusal-returned", "an operation that cannot store returns an empty result, never a made-up one")
    rep.rule("exits", "reporting an error ends the program with a failure status")
    seen = set()
    for d, A in method(M, r"\w+\("):
        nm = re.match(r"taintdag::PolyTracker::~?(\w+)", d).group(1)
        if nm == "PolyTracker": continue
        rep.count("methods"); rep.count("paths", len(A.paths)); n_refused = 0; kinds = set()
        for p in A.paths:
            w = where(p); rs = reservations(A, p, L); bad = refused(p, secs, rs); strs = calls(p, STRINGS)
            for r in rs:
                kinds.add(r.sec.name)
                beg = atom(("ld", r.sec.begin, 8, 0), 64); end = add(beg, atom(("ld", Lin(64, r.sec.begin.c + 8, r.sec.begin.t), 8, 0), 64))
                rep.ob("checked", nm, fits(p, r.start, r.n, end), f"{r.sec}: memory is used without checking that the reservation was granted (path: {conds(p)})", w)
            none = [e for e in strs if bitflag(p, e.res.single() if isinstance(e.res, Lin) else None, 32) is not True]
            if bad or none: n_refused += 1
            if p.end == "noreturn": rep.ob("stops", nm, stopped(p) or not (bad or none), f"the program ends without an error report (path: {conds(p)})", w); continue
            rep.ob("stops", nm, not bad, f"{bad}: carries on although the section is full (path: {conds(p)})", w)
            if p.end != "ret": continue
            rep.ob("stops", nm, not none, f"returns although the name may not have been stored (path: {conds(p)})", w)
            for s in NEEDS.get(nm, []): rep.ob("stored", nm, any(r.sec.name == s for r in rs), f"returns without a record in {s} (path: {conds(p)})", w)
            if nm in ("source_taint",):
                lk = lookups(p)
                if not (lk and bitflag(p, lk[0].res.single(), 8) is False): rep.ob("stored", nm, any(r.sec.name == "Labels" for r in rs), f"returns without labels for a tracked descriptor (path: {conds(p)})", w)
            if nm in ("create_taint_source", "create_source_taint"): rep.ob("stored", nm, any(r.sec.name == "Labels" for r in rs), f"returns without labels (path: {conds(p)})", w)
        if kinds: rep.ob("stops", nm, n_refused > 0, "no path on which the section is full was found: the check whether memory was granted is gone")
        seen.add(nm)
    for nm in NEEDS:
        if nm not in seen: raise AnalysisBroken(f"PolyTracker::{nm} not found")
    strings(rep, M); exits(rep, M); numbers(rep, M)
def numbers(rep, M):
    from . import tracefile as T
    rep.rule("numbered", "a section never holds more entries than its entry numbers can tell apart")
    for n in ("Sources", "Functions", "Labels", "StringTable"):
        c, k = T.const_of(M, f"w_cap_{n}"), T.const_of(M, f"w_ids_{n}")
        rep.ob("numbered", n, c <= k, f"room for {c} entries, numbers for {k}: later entries take the numbers of earlier ones")
def strings(rep, M):
    F = module("flat"); po, bo, lo = own(M, "w_size_StringTable"); s = Sec("StringTable", None, ptr(po), ptr(bo), ptr(lo))
    A = analyze(F, "w_add_string", nonnull=(0,), stable=lambda a: a in (s.begin, ptr(bo + 8))); n = 0
    rep.count("methods"); rep.count("paths", len(A.paths))
    for p in A.paths:
        w = where(p); rs = reservations(A, p, {"s": s}); full = refused(p, [s], rs); n += bool(full)
        if p.end == "noreturn": rep.ob("stops", "add_string", stopped(p), conds(p), w); continue
        if p.end != "ret": continue
        if full: rep.ob("refusal-returned", "add_string", p.ret == const(0, 64) and not rs, f"returns {p.ret} for a full table", w)
        else: rep.ob("stored", "add_string", len(rs) == 1, f"reports success without storing (path: {conds(p)})", w)
    rep.ob("stops", "add_string", n > 0, "no path on which the table is full was found")
EXIT = ("exit", "_exit", "abort", "quick_exit", "_Exit")
def exits(rep, M):
    """error_exit: reports, then ends the program with a non-zero status through the installed handler, initially exit"""
    from engine import prep
    import os
    srcs = [s for s in cxx.runtime_sources() if s.endswith("taintdag/error.cpp")]
    if not srcs: raise AnalysisBroken("taintdag/error.cpp not found")
    E = prep.prepare(cxx.compile_many([(srcs[0], None), (os.path.join(cxx.VERIF, "witness", "err.cpp"), None)]), ["w_error_exit", re.compile("^_GLOBAL__sub_I")], [STDHEAVY, re.compile(r"\bspdlog::|\bfmt::")], errors=False)
    def ends(name, depth=0):
        if name in EXIT: return True
        if depth > 2 or name not in E.defined(): return False
        ps = analyze(E, name).paths
        return bool(ps) and all(p.end == "noreturn" or any(e.callee and ends(e.callee, depth + 1) or any(x in EXIT for x in globs(e)) for e in p.calls()) for p in ps)
    def globs(e): return [a[1] for t in (e.args or []) if isinstance(t, Lin) for a, k in t.t if a[0] == "glob"]
    handlers = {}
    for f in E.rootset:
        if f == "w_error_exit": continue
        for p in analyze(E, f).paths:
            for e in p.events:
                if e.kind == "store" and isinstance(e.val, Lin) and isinstance(e.addr, Lin):
                    for a, k in e.addr.t:
                        for b, _ in e.val.t:
                            if a[0] == "glob" and b[0] == "glob": handlers.setdefault(a[1], set()).add(b[1])
    A = analyze(E, "w_error_exit"); rep.count("methods"); rep.count("paths", len(A.paths))
    for p in A.paths:
        if p.end == "noreturn": rep.ob("exits", "error_exit", True, "", where(p)); continue
        ok = False
        for e in p.calls():
            if not e.args: continue
            g = globs(e)
            status = [t for t in e.args if isinstance(t, Lin) and base_of(t) and base_of(t)[0] == "alloca"]
            if g and g[0] in handlers and any(ends(h) for h in handlers[g[0]]):
                st = [x for x in p.events if x.kind == "store" and status and x.addr == status[0]]
                ok = ok or (len(st) == 1 and isinstance(st[0].val, Lin) and st[0].val.const and st[0].val.c & 0xff != 0)
        rep.ob("exits", "error_exit", ok, f"can return without ending the program with a failure status (calls {[e.dname or e.callee for e in p.calls()][-3:]})", where(p))
