"""How decoded taints and union results look in memory, read off typed witnesses; labels and their stored entries."""
from .core import *
class Layout:
    """kind cell and member cells of a Taint; kind cell and label cell of a union result; the control-flow bit"""
    def __init__(s, M):
        def stores(fn):
            A = analyze(M, fn, nonnull=(0,)); out = []
            for p in A.paths:
                if p.end == "ret": out.append((A, {sub(e.addr, at(A, 0)).c: e for e in p.events if e.kind == "store" and isinstance(e.addr, Lin) and sub(e.addr, at(A, 0)).const}))
            if not out: raise AnalysisBroken(f"{fn}: no path returns")
            return out
        def kind(fn, off):
            v = {(d[off].val.c if off in d and d[off].val.const else None) for _, d in stores(fn)}
            if len(v) != 1 or None in v: raise AnalysisBroken(f"{fn}: no single kind in a cell of its own")
            return v.pop()
        (A, d), = stores("w_tnt_range")[:1]
        s.first = next(o for o, e in d.items() if e.val == at(A, 1)); s.last = next(o for o, e in d.items() if e.val == at(A, 2))
        s.lower = s.higher = None; un = stores("w_tnt_union")
        s.members = sorted({o for A, d in un for o, e in d.items() if e.val in (at(A, 1), at(A, 2))})
        if len(s.members) != 2: raise AnalysisBroken("a union does not store two members")
        # the kind cell: the only constant one-byte store that differs between the three kinds
        cells = [{o: e.val.c for o, e in stores(f)[0][1].items() if e.size == 1 and e.val.const} for f in ("w_tnt_source", "w_tnt_range", "w_tnt_union")]
        k = [o for o in cells[0] if all(o in c for c in cells) and len({c[o] for c in cells}) == 3]
        if len(k) != 1: raise AnalysisBroken("the kind of a taint is not told by one cell")
        s.kind = k[0]; s.SRC, s.RNG, s.UNI = (c[k[0]] for c in cells)
        (A, dl), = stores("w_res_label")[:1]; (_, dt), = stores("w_res_taint")[:1]
        s.rlabel = next(o for o, e in dl.items() if e.val == at(A, 1))
        rk = [o for o, e in dl.items() if e.size == 1 and e.val.const and o in dt and dt[o].val.const and dt[o].val.c != e.val.c]
        if len(rk) != 1: raise AnalysisBroken("the kind of a union result is not told by one cell")
        s.rkind = rk[0]; s.LBL, s.TNT = dl[s.rkind].val.c, dt[s.rkind].val.c
        f = prep.find(M, r"^taintdag::add_affects_control_flow\("); r = [p.ret for p in analyze(M, f).paths if p.end == "ret"]
        m = [a for a in (x.single() for x in r) if a and a[0] == "op" and a[1] == "or"]
        if len(r) != 1 or not m: raise AnalysisBroken("add_affects_control_flow is not an or with a constant")
        s.cf = next(x.c for x in m[0][3:5] if isinstance(x, Lin) and x.const)
def cell_bits(t):
    """per bit: (address, bit) of memory it was read from, 0/1, or None"""
    out = []
    for b in bits(t):
        if isinstance(b, tuple) and isinstance(b[0], tuple) and b[0][0] == "ld" and isinstance(b[0][1], Lin):
            a = b[0][1]; out.append((Lin(64, a.c + b[1] // 8, a.t), b[1] % 8))
        else: out.append(b if b in (0, 1) else None)
    return out
def reads(t, addr, size):
    """t is (a zero-extension of) the size bytes at addr"""
    if not isinstance(t, Lin): return False
    b = cell_bits(t)
    return len(b) >= 8 * size and all(b[i] == (Lin(64, addr.c + i // 8, addr.t), i % 8) for i in range(8 * size)) and all(x == 0 for x in b[8 * size:])
def cellval(p, addr):
    """what the path knows about the one-byte cell at addr: (equal to, {different from})"""
    eq, ne = None, set()
    for c in p.facts.conds:
        if c[0] in ("eq", "ne") and isinstance(c[1], Lin) and isinstance(c[2], Lin):
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if y.const and reads(x, addr, 1):
                    if c[0] == "eq": eq = y.c
                    else: ne.add(y.c)
        elif c[0] == "bool" and isinstance(c[1], tuple):
            b = cell_bits(atom(c[1], 1))
            if len(b) == 1 and b[0] == (addr, 0): eq = int(bool(c[2]))
        elif c[0] in ("ult", "ule", "ugt", "uge"):
            for x, y, pr in ((c[1], c[2], c[0]), (c[2], c[1], {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}[c[0]])):
                if isinstance(y, Lin) and y.const and reads(x, addr, 1):
                    f = {"ult": lambda v: v < y.c, "ule": lambda v: v <= y.c, "ugt": lambda v: v > y.c, "uge": lambda v: v >= y.c}[pr]
                    ne |= {v for v in range(256) if not f(v)}
    if eq is None:
        left = [v for v in range(256) if v not in ne]
        if len(left) == 1: eq = left[0]
    return eq, ne
def entry_label(addr, begin):
    """the 32-bit term x such that addr = begin + 8 * zext(x)"""
    d = sub(addr, begin)
    if d.c % 8 or any(k % 8 for _, k in d.t): return None
    q = Lin(64, d.c // 8 if d.c < 1 << 63 else (d.c - (1 << 64)) // 8 % (1 << 64), tuple((a, k // 8) for a, k in d.t)); return q
def low32(t, out=None, k=1):
    """linear form modulo 2**32 with truncations and extensions of linear terms expanded"""
    out = {} if out is None else out; m = 1 << 32
    out[None] = (out.get(None, 0) + k * t.c) % m
    for a, c in t.t:
        x = a
        if x[0] == "trunc" and x[1] == 32 and isinstance(x[2], Lin): low32(x[2], out, k * c % m); continue
        if x[0] in ("zext", "sext") and isinstance(x[2], Lin) and x[2].w == 32: low32(x[2], out, k * c % m); continue
        if x[0] == "op" and x[1] in ("lshr", "ashr"): x = ("op", "shr") + x[2:]
        out[x] = (out.get(x, 0) + k * c) % m
    return out
def same_label(t, q, d):
    """the label t (32 bits) is the low half of q (64 bits), where 8 * q == d"""
    if not isinstance(t, Lin) or not isinstance(q, Lin): return False
    if t.w == 64: return t == q
    strip = lambda d: {a: c for a, c in d.items() if c}
    if strip(low32(t)) == strip(low32(q)): return True
    a = q.single()
    if a and a[0] == "zext" and a[2] == t: return True
    x = t.single()
    if x and x[0] == "trunc":
        y = x[2]
        if y == q: return True
        z = y.single()
        if z and z[0] == "op" and z[1] == "lshr" and z[4] == const(3, 64) and z[3] == d: return True
        if z and z[0] == "op" and z[1] == "lshr" and z[4] == const(3, 64) and sub(z[3], d) == const(0, 64): return True
    bq = bits(q); bt = bits(t)
    if all(b is not None and b != 0 or i > 20 for i, b in enumerate(bt)) and bt[0] not in (0, 1, None) and bt == bq[:len(bt)]: return True
    return False
def is_entry(t, begin):
    """a 64-bit read of stored label entry: its address, or None"""
    a = t.single() if isinstance(t, Lin) else None
    return a[1] if a and a[0] == "ld" and a[2] == 8 and isinstance(a[1], Lin) and entry_label(a[1], begin) is not None else None
