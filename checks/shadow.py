"""Shared view of the sanitizer's shadow memory: the label of the byte at address x lives at 4*(x & mask)."""
from .rt import *
from engine import terms
MASK = (~0x700000000000) & ((1 << 64) - 1)          # documented: bits 44-46 of the address are cleared
_Q = atom(("shadow-base",), 64)
def lin(t):
    """a term with every shadow address written as 4*address + 4*base (application regions do not cross the edge of application memory)"""
    if not isinstance(t, Lin): return t
    def f(a):
        if a[0] == "op" and a[1] == "and" and a[4].const:
            if a[4].c == MASK: return add(lin(a[3]), _Q)
            if a[4].c == (MASK << 2) & ((1 << 64) - 1): return add(lin(a[3]), scale(_Q, 4))
    return terms.subst(t, f)
def shadow(x): return add(scale(x, 4), scale(_Q, 4))
_mods = {}
def dfsan():
    """the sanitizer runtime's label functions, origin tracking switched off"""
    if "d" not in _mods:
        src = cxx.dfsan_sources()[0]
        bcs = cxx.compile_many([(src, cxx.DFSAN), (cxx.VERIF + "/witness/noorigins.cpp", cxx.DFSAN)])
        names = ["__dfsan_union", "dfsan_union", "__dfsan_union_load", "dfsan_read_label", "dfsan_set_label", "__dfsan_set_label", "dfsan_add_label", "__dfsw_dfsan_get_label"]
        M = prep.prepare(bcs, names, [re.compile(r"^__polytracker_")])
        gone = [n for n in names if n not in M.rootset]
        if gone: raise AnalysisBroken(f"{gone} not found in {src}")
        M.sources = [src]; _mods["d"] = M
    return _mods["d"]
def eq(F, a, b): return a == b or F.holds("eq", a, b) is True
def zero(F, a): return eq(F, a, const(0, a.w))
def joins(A, p, r, a, b, F=None):
    """r is the combination of the labels a and b on path p: None, or what is wrong"""
    F = F or p.facts
    if not isinstance(r, Lin): return f"{r}"
    s = r.single()
    if s and s[0] == "op" and s[1] in ("or", "xor"):
        if zero(F, s[3]): r = s[4]
        elif zero(F, s[4]): r = s[3]
    if eq(F, r, a): return None if zero(F, b) or eq(F, a, b) else f"the label {b} is lost"
    if eq(F, r, b): return None if zero(F, a) else f"the label {a} is lost"
    if zero(F, r): return None if zero(F, a) and zero(F, b) else "the labels are lost"
    for e in p.calls("__polytracker_union_table"):
        if e.res != r: continue
        x, y = (mem_at(A, p, e, e.args[i], 4) for i in (0, 1))
        if not ((eq(F, x, a) and eq(F, y, b)) or (eq(F, x, b) and eq(F, y, a))): return f"the union is made of {x} and {y} instead of {a} and {b}"
        for t in (a, b):
            if F.holds("ne", t, const(0, 32)) is not True: return f"a union is made although {t} may be untainted"
        return None
    return f"the result {r} is neither label nor their union"
def backs(A, uid): return [p for p in A.paths if p.end == ("back", uid)]
def carried(p, uid, phi): return p.env[("carried", uid)].get(phi)
def idx(t, base, uid):
    """element number e such that t == base + 4*(K+e), or None"""
    d = sub(lin(t), base); d = sub(d, scale(atom(("K", uid), 64), 4))
    return d.sc // 4 if d.const and d.sc % 4 == 0 else None
def custom():
    """the sanitizer's own wrappers (dfsan_custom.cpp), origin tracking switched off"""
    if "c" not in _mods:
        src = cxx.dfsan_sources()[1]
        bcs = cxx.compile_many([(src, cxx.DFSAN), (cxx.VERIF + "/witness/noorigins.cpp", cxx.DFSAN)])
        M = prep.prepare(bcs, [re.compile(r"^__dfsw_\w+$")], [])
        M.sources = [src]; _mods["c"] = M
    return _mods["c"]
_can = {}
def custom_wrapper(name):
    M = custom(); sym = "__dfsw_" + name
    if sym not in M.rootset: return None
    if sym not in _can:
        args = M.fn(sym).args
        _can[sym] = analyze(M, sym, max_paths=4000, private={len(args) - 1} if args and args[-1].ty == "ptr" else ())
    return _can[sym]
def app(t):
    """the application address whose label lives at the shadow address t, or None"""
    d = sub(lin(t), scale(_Q, 4))
    if d.c % 4 or any(c % 4 for _, c in d.t) or any(a == ("shadow-base",) for a, _ in d.t): return None
    return Lin(64, d.sc // 4, tuple((a, c // 4) for a, c in d.t))
def is_shadow(t): return any(a == ("shadow-base",) for a, _ in lin(t).t)
