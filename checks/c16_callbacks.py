"""Path-sensitive value-flow analysis of every instrumentation callback: what it does on the paths where tracing has not
been started (nothing) and on those where it has (one forwarded call), and where start-up sets the flag that decides."""
from . import life
from .rt import *
MIN_OBLIGATIONS = 50
# callback -> (operation, arguments, label that must be non-zero, value returned once started)
A_ = lambda i, w=64: ("arg", i)
SPEC = {
 "__polytracker_log_func_entry": ("function_entry", [("len", 1), ("arg", 0)], None, "result"),
 "__polytracker_log_func_exit": ("function_exit", [("arg", 0)], None, None),
 "__polytracker_union_table": ("union_labels", [("deref", 0), ("deref", 1)], None, "result"),
 "__polytracker_log_conditional_branch": ("affects_control_flow", [("arg", 0)], 0, None),
 "__dfsw___polytracker_log_conditional_branch": ("affects_control_flow", [("arg", 1)], 1, None),
 "__dfsw___polytracker_log_tainted_control_flow": ("log_tainted_control_flow", [("arg", 2), ("arg", 1)], 2, ("arg", 0)),
 "__polytracker_enter_function": ("enter_function", [("arg", 0)], None, None),
 "__polytracker_leave_function": ("leave_function", [("arg", 0)], None, None),
}
RETLABEL = {"__dfsw___polytracker_log_tainted_control_flow": (4, 2)}
COMMUTES = {"union_labels"}
def matches(A, p, ev, t, spec):
    k, i = spec
    if not isinstance(t, Lin): return False
    if k == "arg": return t.single() == ("arg", i)
    if k == "len":
        a = t.single()
        return a == ("arg", i) or bool(a and a[0] == "zext" and a[2].single() == ("arg", i))
    if k == "deref":
        a = t.single()
        return bool(a and a[0] == "ld" and a[1].single() == ("arg", i))
def about(t, g):
    return mentions(t, lambda a: a[0] == "ld" and isinstance(a[1], Lin) and base_of(a[1]) == ("glob", g))
def started(p, flags):
    """True / False: what the path has seen of the flag; None: nothing"""
    for c in p.facts.conds:
        for g in flags:
            if len(c) >= 3 and isinstance(c[1], Lin) and isinstance(c[2], Lin):
                for x, y, o in ((c[1], c[2], c[0]), (c[2], c[1], c[0])):
                    if about(x, g) and y.const:
                        if o in ("eq", "ne"): return (o == "ne") == (y.c == 0)
                        if y.c == 0 and o in ("ugt", "ult", "sgt", "slt"): return True
                        if y.c == 0 and o in ("ule", "uge", "sle", "sge"): return False
            for x in c:
                if isinstance(x, tuple) and x and x[0] in ("ld", "trunc", "zext", "op", "cmp") and about(atom(x, 1), g) and "bool" in c: return bool(c[-1])
    return None
def check(rep):
    M = life.module()
    rep.assumptions += ["the callbacks are called with the arguments the instrumentation passes", "start-up runs before other threads exist"]
    rep.rule("inert", "before start-up a callback calls no operation of the tracing object and changes nothing but its own result")
    rep.rule("forward", "once started, a callback performs the operation it stands for, once, on the tracing object, with its own arguments unchanged")
    rep.rule("tainted", "a callback about a label acts exactly if the label is not zero")
    rep.rule("decided", "whether tracing has been started is decided before the callback acts")
    rep.rule("value", "a callback that wraps a program value returns that value with its label; one that returns a result returns the operation's result")
    rep.rule("published", "start-up sets the flag on every path, after the tracing object is constructed, and the flag is clear initially")
    S = life.run(M, "__taint_start"); flags = None; obj = None
    for p in S.paths:
        if p.end != "ret": continue
        rep.count("start-up paths")
        ctor = life.tracing(p, "PolyTracker")
        if not rep.ob("published", "__taint_start", len(ctor) == 1, f"the tracing object is constructed {len(ctor)} times", where(p)): continue
        obj = life.glob(ctor[0].args[0])
        sets = {}
        for e in p.events:
            g = life.glob(e.addr) if isinstance(e.addr, Lin) else None
            if g and (e.kind == "store" or e.kind == "rmw" and e.callee in ("xchg", "or") or e.kind == "cmpxchg") and isinstance(e.val, Lin) and e.val.const and e.val.c: sets.setdefault(g, []).append(e)
        flags = set(sets) if flags is None else flags & set(sets)
    rep.ob("published", "__taint_start", obj is not None and flags is not None, "start-up never completes")
    if obj is None or flags is None: return
    # the flags the callbacks look at
    seen = set()
    for f in SPEC:
        if f not in M.rootset: raise AnalysisBroken(f"callback {f} is not defined in the runtime")
        for p in life.run(M, f).paths:
            for c in p.facts.conds:
                for x in c:
                    if isinstance(x, Lin):
                        for a in atoms_of(x):
                            if a[0] == "ld" and isinstance(a[1], Lin) and base_of(a[1]) and base_of(a[1])[0] == "glob": seen.add(base_of(a[1])[1])
    flags &= seen
    rep.ob("published", "__taint_start", flags, "no flag that the callbacks look at is set on every path through start-up")
    for p in S.paths:
        if p.end != "ret": continue
        ctor = life.tracing(p, "PolyTracker")
        for g in flags:
            ev = [i for i, e in enumerate(p.events) if isinstance(e.addr, Lin) and life.glob(e.addr) == g and e.kind in ("store", "rmw", "cmpxchg")]
            rep.ob("published", "__taint_start", ctor and ev and ev[0] > p.events.index(ctor[-1]), "the flag is set before the tracing object is constructed", where(p))
            last = [p.events[i] for i in ev][-1:]
            rep.ob("published", "__taint_start", last and isinstance(last[0].val, Lin) and last[0].val.c != 0, "start-up leaves the flag clear", where(p))
    for g in flags:
        raw = M.global_bytes(g, mutable=True)
        rep.ob("published", "flag", raw is not None and all(b == 0 for b in raw), f"the flag is set before start-up ({raw})")
    for f, (op, args, lab, ret) in SPEC.items():
        A = life.run(M, f); rep.count("callbacks"); rep.count("paths", len(A.paths)); acted = False; idle = False
        for p in A.paths:
            w = where(p); tr = life.tracing(p); s = started(p, flags)
            if p.end == "noreturn": rep.ob("forward", f, False, f"does not return (path: {conds(p)})", w); continue
            if p.end != "ret": rep.ob("forward", f, not tr, "the operation is repeated", w); continue
            if f in RETLABEL:
                o, l = RETLABEL[f]
                got = [e.val for e in p.events if e.kind == "store" and e.addr == at(A, o)]
                rep.ob("value", f, got and got[-1] == at(A, l), f"return label is {got[-1:] or 'not set'} (path: {conds(p)})", w)
            if isinstance(ret, tuple): rep.ob("value", f, same_value(p, p.ret, at(A, ret[1])), f"returns {p.ret} (path: {conds(p)})", w)
            st = [e for e in p.events if e.kind in ("store", "rmw", "cmpxchg", "memset", "memcpy") and isinstance(e.addr, Lin) and base_of(e.addr) and base_of(e.addr)[0] != "alloca" and not (f in RETLABEL and e.addr == at(A, RETLABEL[f][0]))]
            rep.ob("inert", f, not st, f"changes {st[:1]}", w)
            if s is not True:
                idle = idle or s is False
                rep.ob("inert" if s is False else "decided", f, not tr, f"calls {[str(e.dname)[:60] for e in tr]} {'before start-up' if s is False else 'whether tracing has been started or not'}", w)
                if s is None and not tr:
                    z = lab is not None and p.facts.holds("eq", at(A, lab), const(0, 32)) is True
                    rep.ob("forward", f, z, "does nothing, whether tracing has been started or not", w)
                continue
            if lab is not None:
                z = p.facts.holds("eq", at(A, lab), const(0, 32))
                if z is True: rep.ob("tainted", f, not tr, "acts on an untainted value", w); continue
                if not rep.ob("tainted", f, z is False, f"acts without having looked at the label, or ignores a tainted value (path: {conds(p)})", w): continue
            acted = True
            if not rep.ob("forward", f, len(tr) == 1 and re.search(r"taintdag::PolyTracker::" + op + r"\(", tr[0].dname), f"calls {[str(e.dname)[:70] for e in tr]}, stands for {op}", w): continue
            e = tr[0]
            rep.ob("forward", f, life.glob(e.args[0]) == obj, f"acts on {e.args[0]}", w)
            got = e.args[1:]; ok = len(got) == len(args) and all(matches(A, p, e, t, s_) for t, s_ in zip(got, args))
            if not ok and op in COMMUTES: ok = len(got) == len(args) and all(matches(A, p, e, t, s_) for t, s_ in zip(got[::-1], args))
            rep.ob("forward", f, ok, f"{op} gets {[str(x) for x in got]}", w)
            if ret == "result": rep.ob("value", f, same_value(p, p.ret, e.res), f"returns {p.ret}", w)
        rep.ob("forward", f, acted, "never performs its operation")
