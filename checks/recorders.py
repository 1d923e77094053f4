"""Shared reading of the recorder methods: parameters, descriptor lookup, start offset, per-byte loops."""
from .core import *
TWO = ("util::Offset", "std::span", "std::basic_string_view")
def params(d, A):
    """IR parameter index of each source-level parameter (after `this`)"""
    inner = d[d.index("(") + 1:d.rindex(")")]; out = []; depth = 0; cur = ""
    for c in inner:
        if c in "<(": depth += 1
        if c in ">)": depth -= 1
        if c == "," and depth == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    i = 1; res = []
    for t in out:
        res.append((t, i)); i += 2 if t.startswith(TWO) else 1
    if i != len(A.F.args): raise AnalysisBroken(f"unexpected parameter passing in {d}")
    return res
def scaled_eq(p, a, b):
    if a == b: return True
    for s in (1, 2, 4, 8, 16):
        if p.facts.holds("eq", scale(a, s), scale(b, s)) is True: return True
    le = p.facts.holds("ule", a, b) is True or p.facts.holds("sle", a, b) is True
    ge = p.facts.holds("uge", a, b) is True or p.facts.holds("sge", a, b) is True
    return le and ge
def lookups(p): return calls(p, LOOKUP)
def K(uid): return atom(("K", uid), 64)
def loops_with(A, act):
    """loops whose generic iteration performs the action"""
    out = {}
    for p in A.paths:
        if isinstance(p.end, tuple) and p.end[0] == "back": out.setdefault(p.end[1], []).append(p)
    return {u: ps for u, ps in out.items() if any(act(p, u) for p in ps)}
def in_iter(p, uid): return [e for e in p.events if uid in (e.loops or ())]
def ran_to(p, uids, n, act, known_zero=True):
    """on a returning path: one of the loops has covered every index below n"""
    if scaled_eq(p, n, const(0, n.w)): return True
    for u in uids:
        k = K(u)
        if not any(isinstance(c[1], Lin) and any(a == ("K", u) for x in c[1:] if isinstance(x, Lin) for a, _ in x.t) for c in p.facts.conds if c[0] != "bool"): continue
        if act(p, u):
            if scaled_eq(p, addc1(k), n): return True
        elif scaled_eq(p, k, n): return True
    return False
def addc1(t): return Lin(t.w, t.c + 1, t.t)
def index_of(d, u, n, width=1):
    """the loop visits index K, or n-1-K, when the address offset d says so; None otherwise"""
    k = K(u)
    if d == scale(k, width): return k
    r = sub(sub(n, const(1, 64)), k)
    if d == scale(r, width): return r
    return None
def offset_cells(p, L):
    """atomic updates of the per-source running counts: (direction, event, index term)"""
    out = []
    for e in p.events:
        if e.kind not in ("rmw", "store", "cmpxchg") or not isinstance(e.addr, Lin): continue
        for w in ("read_offsets", "write_offsets"):
            d = sub(e.addr, L[w])
            if base_of(e.addr) != base_of(L[w]): continue
            # index scaled by the entry size, zero-extended byte
            if len(d.t) == 1 and d.c == 0 and d.t[0][1] == 8: out.append((w, e, atom(d.t[0][0], 64)))
            elif d.const and 0 <= d.sc < 2048: out.append((w, e, const(d.sc // 8, 64)))
    # the two arrays are adjacent: attribute to the one whose base matches exactly
    return out
def start_offset(A, p, L, which, idx, off, length):
    """(start term or None, what is wrong)"""
    known = bitflag(p, ("arg", off + 1), 0)
    upd = offset_cells(p, L)
    if known is True:
        if upd: return None, f"the running count is changed although the position is known"
        return at(A, off), ""
    if known is False:
        if len(upd) != 1: return None, f"{len(upd)} updates of the running count for one transfer"
        w, e, ix = upd[0]
        if e.kind != "rmw" or e.callee != "add": return None, "the running count is not advanced by one atomic addition"
        if w != which: return None, f"advances the {w.split('_')[0]} count"
        if not is_field(ix, idx, 0, 8): return None, f"the running count advanced is that of index {ix}"
        if e.val != length: return None, f"the running count advances by {e.val}"
        return e.res, ""
    return None, "whether the position is known is not decided before it is used"
