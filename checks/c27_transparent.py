"""Path-sensitive value-flow analysis of the IR of every library-function wrapper: each returning path contains
exactly one call of the wrapped function, its arguments are the wrapper's own parameters (term equality), and the
returned term is that call's result; paths that do not return must have reported an error first."""
from .rt import *
from . import libc
from .iocommon import ASSUME
from .iospec import NOT_REDIRECTED
MIN_OBLIGATIONS = 250
CALLBACK = re.compile(r"^__polytracker_")
NORETURN = {"exit": 1, "__assert_fail": 4}
def nparams(A, name):
    """parameters of the wrapped function, from the wrapper's own layout (labels are i32 and follow them)"""
    n = len(A.F.args)
    return libc.ARITY.get(name)
def is_vararg(p, t):
    """the value was fetched from the variadic arguments: a load through the va_list"""
    vas = {base_of(e.args[0]) for e in p.calls() if e.callee and e.callee.startswith("llvm.va_start")}
    def via(a): return a[0] in ("undef",) and isinstance(a[1], tuple) and len(a[1]) > 1 and isinstance(a[1][1], Lin) and base_of(a[1][1]) in vas or (a[0] == "ld" and base_of(a[1]) in vas)
    if not isinstance(t, Lin): return False
    a = t.single()
    if a is None: return False
    if a[0] == "vaarg": return True
    if a[0] in ("zext", "trunc", "sext"): return is_vararg(p, a[2])
    return a[0] == "ld" and any(via(x) for x in atoms_of(a[1]))
def check(rep):
    rep.assumptions += ASSUME
    M = wrappers()
    rep.rule("once", "every returning path performs the wrapped call exactly once")
    rep.rule("arguments", "the wrapped call receives the program's own arguments")
    rep.rule("result", "the wrapper returns the wrapped call's result")
    rep.rule("stops", "a path that does not return has reported an error (or is the wrapped call of a function that never returns)")
    rep.rule("mode", "an optional mode argument is passed on whenever the flags ask for it")
    rep.count("translation units", len(M.sources))
    for sym in sorted(M.rootset):
        name = sym[len("__dfsw_"):]
        if CALLBACK.match(name) or name in NOT_REDIRECTED: continue
        ar = libc.ARITY.get(name)
        if ar is None: raise AnalysisBroken(f"no contract for the wrapped function {name}")
        A = wrapper(name, M); rep.count("wrappers"); rep.count("paths", len(A.paths))
        for p in A.paths:
            w = where(p)
            U = [e for e in p.calls() if e.callee in libc.same(name)]
            if name in NORETURN:
                ok = len(U) == 1 and U[0] is p.calls()[-1]
                rep.ob("once", sym, ok, f"a path does not end in {name}", w)
                if U: rep.ob("arguments", sym, U[0].args == [at(A, i) for i in range(NORETURN[name])], f"called with {U[0].args}", U[0].loc)
                continue
            if p.end == "noreturn":
                rep.ob("stops", sym, errexit(p) or libfail(p), "ends without returning and without an error: " + conds(p), w); continue
            if p.end != "ret": continue
            if not rep.ob("once", sym, len(U) == 1, f"{len(U)} calls of {name} (path: {conds(p)})", w): continue
            U = U[0]
            for i in range(ar):
                rep.ob("arguments", sym, i < len(U.args) and U.args[i] == at(A, i), f"argument {i} is {U.args[i] if i < len(U.args) else 'missing'}", U.loc)
            if name in libc.MODE: mode(rep, A, p, sym, U, libc.MODE[name], ar)
            if A.F.ret != "void":
                rep.ob("result", sym, same_value(p, p.ret, U.res), f"returns {p.ret} (path: {conds(p)})", w)
            else: rep.ob("result", sym, p.ret is None, "", w)
def libfail(p): return any(e.dname and re.match(r"std::__throw_|std::terminate|abort$|__assert_fail$", e.dname) for e in p.calls())
def mode(rep, A, p, sym, U, flag, ar):
    fl = at(A, flag)
    needs = False            # refuted only by conditions of the path
    for bit in (0x40, 0x410000):
        t = A._binop("and", fl.w, fl, const(bit, fl.w))
        if bit == 0x40: h = p.facts.holds("ne", t, const(0, fl.w))
        else: h = p.facts.holds("eq", t, const(bit, fl.w))
        if h is not False: needs = True
    m = U.args[ar] if len(U.args) > ar else None
    ok = (not needs and (m is None or not mentions(m, lambda a: a[0] == "alloca") or is_vararg(p, m))) or (m is not None and is_vararg(p, m))
    rep.ob("mode", sym, ok, f"mode passed on is {m} on the path where {conds(p)}", U.loc)
