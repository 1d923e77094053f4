"""Value-flow analysis of everything that writes label storage, and of every way a union can yield a label: a fresh entry
holding the computed union, an operand chosen by the union computation, or an entry that was compared with it."""
from .taintmem import *
MIN_OBLIGATIONS = 60
def check(rep):
    M = module("flat"); L = layout(M); Y = Layout(M); S = L["Labels"]; begin = atom(("ld", S.begin, 8, 0), 64)
    rep.assumptions += ["C02 and C03 establish what encode, decode and the union computation do", "C06 establishes that reservations of a section do not overlap"]
    rep.rule("append", "label storage is written only in a fresh reservation, or to switch on the control-flow mark of the entry that is already there")
    rep.rule("operands", "the union is computed from the two labels and their own stored taints")
    rep.rule("same", "combining a label with itself yields that label")
    rep.rule("chosen", "if the union computation chooses an existing label, that label is the result")
    rep.rule("reuse", "any other existing label that is returned was compared with the computed union in all bits but the control-flow mark and found equal")
    rep.rule("new", "otherwise one entry is appended, it holds the computed union, and its index is the result")
    for d, A in method(M, r"\w+\("):
        nm = re.match(r"taintdag::PolyTracker::(\w+)", d).group(1)
        if nm == "PolyTracker" or "~" in d: continue
        rep.count("methods"); rep.count("paths", len(A.paths))
        for p in A.paths: writes(rep, A, p, nm, L, S, begin)
    u = method(M, r"union_labels\(")
    for d, A in u:
        kinds = set()
        for p in A.paths: union(rep, A, p, L, S, Y, begin, kinds)
        rep.ob("new", "union_labels", {"new"} <= kinds, f"outcomes found: {sorted(kinds)}")
def into(e, S, begin):
    """address of a write that goes to label storage"""
    if e.kind not in ("store", "memcpy", "memset", "rmw", "cmpxchg", "memmove") or not isinstance(e.addr, Lin): return False
    return any(a[0] == "ld" and a[1] in (S.begin, S.pos) and k == 1 for a, k in e.addr.t)
def mark(A, p, e):
    """e stores add_affects_control_flow(x) where x is what is stored there"""
    c = [x for x in p.calls(re.compile(r"^taintdag::add_affects_control_flow\(")) if x.res == e.val]
    if e.kind != "store" or e.size != 8 or len(c) != 1: return False
    a = c[0].args[-1].single()
    return bool(a and a[0] == "ld" and a[1] == e.addr and a[2] == 8)
def writes(rep, A, p, nm, L, S, begin):
    res = [r for r in reservations(A, p, L)]
    fresh = {id(e) for r in res if r.sec is S for e in r.writes}
    for e in p.events:
        if e.kind in ("store", "rmw") and e.addr == S.pos:
            ok = e.kind == "store" and any(r.ev is e and grows(p, r.n) for r in res)
            rep.ob("append", nm, ok, f"the write position of the label section becomes {e.val}", where(p))
        if not into(e, S, begin): continue
        rep.count("writes to label storage")
        rep.ob("append", nm, id(e) in fresh or mark(A, p, e), f"overwrites a stored label: {str(e)[:300]}", where(p))
def grows(p, n):
    if n.const: return 0 < n.sc
    return all(k > 0 for _, k in n.t) and n.sc >= 0
def content(A, p, e, ptr, n=24):
    return tuple(mem_at(A, p, e, Lin(64, ptr.c + o, ptr.t), w) for o, w in ((0, 8), (8, 8), (16, 1)))
def union(rep, A, p, L, S, Y, begin, kinds):
    w = where(p); l, r = at(A, 1), at(A, 2); txt = f"(path: {conds(p)[:400]})"
    if p.end == "noreturn": rep.ob("new", "union_labels", stopped(p), f"stops without an error {txt}", w); return
    dec = p.calls(re.compile(r"^taintdag::decode\(")); comp = p.calls(re.compile(r"^taintdag::union_::compute\(")); enc = p.calls(re.compile(r"^taintdag::encode\("))
    res = [x for x in reservations(A, p, L) if x.sec is S]
    if p.end != "ret":
        rep.ob("new", "union_labels", not res, "appends labels in a loop", w); return
    if not comp:
        rep.ob("same", "union_labels", p.facts.holds("eq", l, r) is True and p.ret in (l, r) and not res, f"returns {p.ret} without computing a union {txt}", w); kinds.add("same"); return
    if not rep.ob("operands", "union_labels", len(comp) == 1, f"{len(comp)} unions computed", w): return
    c = comp[0]; out, a, ta, b, tb = c.args
    rep.ob("operands", "union_labels", {a, b} == {l, r}, f"the union of {a} and {b} is computed", w)
    for x, t in ((a, ta), (b, tb)):
        ok = False
        for d in dec:
            q = is_entry(d.args[1], begin)
            if q is not None and same_label(x, entry_label(q, begin), sub(q, begin)) and content(A, p, c, d.args[0]) == content(A, p, c, t): ok = True
        rep.ob("operands", "union_labels", ok, f"the taint used for {x} is not what is stored for it", w)
    k, ne = cellval(p, Lin(64, out.c + Y.rkind, out.t))
    if k is None and Y.TNT in ne and Y.LBL not in ne: k = Y.LBL
    if k == Y.LBL or (isinstance(p.ret, Lin) and reads(p.ret, Lin(64, out.c + Y.rlabel, out.t), 4)):
        kinds.add("chosen")
        rep.ob("chosen", "union_labels", k == Y.LBL and reads(p.ret, Lin(64, out.c + Y.rlabel, out.t), 4) and not res, f"the computation chose a label, but {p.ret} is returned {txt}", w); return
    if not rep.ob("new", "union_labels", (k == Y.TNT or Y.LBL in ne) and len(enc) == 1, f"the computed union is not encoded {txt}", w): return
    e = enc[0]
    rep.ob("new", "union_labels", content(A, p, e, e.args[0]) == content(A, p, e, out), "what is encoded is not the computed union", w)
    if res:
        kinds.add("new"); x = res[0]
        ws = [y for y in x.writes]
        ok = len(res) == 1 and x.n == const(8, 64) and len(ws) == 1 and x.field(0, 8) == e.res
        rep.ob("new", "union_labels", ok, f"appends {len(res)} entries: {[str(y)[:120] for y in ws]}", w)
        rep.ob("new", "union_labels", isinstance(p.ret, Lin) and is_index(p.ret, sub(x.start, begin)), f"returns {p.ret}, the new entry is at {x.start}", w)
    else:
        kinds.add("reused")
        ok = False
        for q, m in compared(p, e.res, begin, Y):
            if m | Y.cf == (1 << 64) - 1 and (same_label(p.ret, entry_label(q, begin), sub(q, begin)) or is_index(p.ret, sub(q, begin))): ok = True
        rep.ob("reuse", "union_labels", ok, f"returns {p.ret} although that entry need not hold the computed union {txt}", w)
def is_index(t, d):
    """t is the 32-bit value d / 8"""
    x = t.single()
    if t.w == 32 and x and x[0] == "trunc": t = x[2]; x = t.single()
    if x and x[0] == "op" and x[1] in ("lshr", "ashr", "udiv", "sdiv") and isinstance(x[4], Lin) and x[4].const and x[4].c == (3 if "shr" in x[1] else 8): return sub(x[3], d) == const(0, d.w) if x[3].w == d.w else False
    return False
def compared(p, enc, begin, Y):
    """[(address of entry, mask of bits known equal to enc)]"""
    out = []
    for c in p.facts.conds:
        if c[0] != "eq" or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
        for x, y in ((c[1], c[2]), (c[2], c[1])):
            a = x.single()
            if is_entry(x, begin) is not None and y == enc: out.append((is_entry(x, begin), (1 << 64) - 1)); continue
            if y == const(0, 64) and a and a[0] == "op" and a[1] in ("and", "xor"):
                m, z = (1 << 64) - 1, a
                if a[1] == "and":
                    m, z = next(((q.c, r.single()) for q, r in ((a[3], a[4]), (a[4], a[3])) if isinstance(q, Lin) and q.const), (0, None))
                if z and z[0] == "op" and z[1] == "xor":
                    for q, r in ((z[3], z[4]), (z[4], z[3])):
                        if r == enc and is_entry(q, begin) is not None: out.append((is_entry(q, begin), m))
            if a and a[0] == "op" and a[1] in ("and", "or") and y.single() and y.single()[:3] == a[:3]:
                b = y.single()
                for q, m in ((a[3], a[4]), (a[4], a[3])):
                    for r, n in ((b[3], b[4]), (b[4], b[3])):
                        if isinstance(m, Lin) and m.const and m == n and r == enc and is_entry(q, begin) is not None: out.append((is_entry(q, begin), m.c if a[1] == "and" else ~m.c & ((1 << 64) - 1)))
    return out
