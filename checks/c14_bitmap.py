"""Value-flow analysis of the bitmap operations, partitioned by the residues of position and length modulo the bucket width:
inside one class every mask is a constant and every bucket number is linear, so the buckets and bits touched on each path
can be compared exactly with the bits requested."""
import os
from concurrent.futures import ProcessPoolExecutor
from .core import *
from engine.terms import addc, scale
MIN_OBLIGATIONS = 60
W = 64
ARG = lambda i: ("arg", i)
def module14():
    module("flat")
    return prep.prepare(core_c()["bcs"], [re.compile(r"^w_bit_\w+$|^w_size_SourceIndexBits$|^w_bits_new$")], [STDHEAVY])
def core_c():
    from . import core
    return core._c
# ---------------------------------------------------------------- evaluation inside one residue class
class Class:
    """position = 64*B + r, length = 64*N + s (N a constant, or at least 2)"""
    def __init__(s, r, sl, n):
        s.r, s.s, s.n = r, sl, n
        s.memo = {}
        s.B = atom(("B",), 64); s.N = const(n, 64) if n is not None else atom(("N",), 64)
        s.val = {ARG(1): addc(scale(s.B, 64), r)}
        if sl is not None: s.val[ARG(2)] = addc(scale(s.N, 64), sl)
        s.known = {}; s.cache = {}; s.root = s
    def on(s, p):
        """this class specialised to a path (None: the path is not taken in this class)"""
        if id(p) not in s.cache:
            C = Class.__new__(Class); C.__dict__.update(s.__dict__); C.known = {}; C.memo = s.root.memo
            s.cache[id(p)] = C if C.feasible(p) else None
        return s.cache[id(p)]
    lo = {("B",): 0, ("N",): 2}; hi = {("B",): (1 << 25) - 1, ("N",): 1 << 25}
    def rng(s, t):
        """value range of a term as an integer (None: unknown)"""
        if t.w != 64: return (t.c, t.c) if t.const else (None, None)
        a = b = t.sc
        for x, k in t.t:
            if x[0] == "K": l, h = 0, 1 << 32
            elif x in s.lo: l, h = s.lo[x], s.hi[x]
            else: return None, None
            a += min(k * l, k * h); b += max(k * l, k * h)
        return a, b
    def ev(s, t):
        if not isinstance(t, Lin): return t
        r = s.memo.get(t)
        if r is None:
            r = Lin(t.w, t.c)
            for a, k in t.t:
                x = s.at(a, t.w)
                r = add(r, scale(Lin(t.w, x.c, x.t), k, t.w), t.w)
            s.memo[t] = r
        return r
    def at(s, a, w):
        if a in s.val: return s.val[a]
        if a in s.known: return s.known[a]
        if a[0] == "op":
            o, x, y = a[1], s.ev(a[3]), s.ev(a[4]); m = (1 << x.w) - 1
            if x.const and y.const:
                f = {"and": x.c & y.c, "or": x.c | y.c, "xor": x.c ^ y.c, "shl": x.c << y.c if y.c < x.w else None, "lshr": x.c >> y.c if y.c < x.w else None, "mul": x.c * y.c, "udiv": x.c // y.c if y.c else None, "urem": x.c % y.c if y.c else None}.get(o)
                if f is not None: return const(f & m, w)
            if o in ("and", "or", "mul") and x.const: x, y = y, x
            if y.const:
                if o == "and" and y.c == 0: return const(0, w)
                if o == "and" and y.c == m: return x
                if o == "or" and y.c == 0: return x
                if o == "shl" and y.c < 64: return scale(x, 1 << y.c, w)
                if o == "mul": return scale(x, y.sc, w)
                d = {"lshr": 1 << y.c if y.c < 63 else None, "udiv": y.c, "urem": y.c}.get(o)
                if o == "and" and y.c & (y.c + 1) == 0: d = y.c + 1
                if d and all(k % d == 0 for _, k in x.t):
                    if o in ("and", "urem") and (o == "and" or s.nn(x)): return const(x.sc % d, w)
                    if o in ("lshr", "udiv") and s.nn(x): return Lin(w, x.sc // d, tuple((b, k // d) for b, k in x.t))
                if o == "and" and (~y.c & m) & ((~y.c & m) + 1) == 0:                       # rounding down
                    d = (~y.c & m) + 1
                    if all(k % d == 0 for _, k in x.t): return Lin(w, x.sc // d * d, x.t)
            return atom(("op", o, a[2], x, y), w)
        if a[0] in ("zext", "sext", "trunc"):
            x = s.ev(a[2])
            if x.const: return const(x.sc if a[0] == "sext" else x.c, w)
            return atom((a[0], a[1], x) + a[3:], w)
        if a[0] == "cmp":
            h = s.holds((a[1], s.ev(a[2]), s.ev(a[3])))
            if h is not None: return const(int(h), w)
        if a[0] == "sel":
            c = s.ev(a[1])
            if c.const: return s.ev(a[2] if c.c else a[3])
        if a[0] == "pure" and a[1].split(".")[1:2] and a[1].split(".")[1] in ("umin", "umax", "smin", "smax"):
            x, y = (s.ev(t) for t in a[2]); h = s.holds(("ule", x, y))
            if h is not None: return x if h == (a[1].split(".")[1][1:] == "min") else y
        return s.rebuild(a, w)
    def rebuild(s, a, w):
        def g(p): return s.ev(p) if isinstance(p, Lin) else (tuple(g(q) for q in p) if isinstance(p, tuple) else p)
        return atom(tuple(g(p) for p in a), w)
    def nn(s, x): lo, _ = s.rng(x); return lo is not None and lo >= 0
    def holds(s, c):
        if len(c) < 3 or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): return None
        o, x, y = c[0], s.ev(c[1]), s.ev(c[2])
        if x == y: return o in ("eq", "ule", "uge", "sle", "sge")
        if x.const and y.const:
            u, v = (x.sc, y.sc) if o[0] == "s" else (x.c, y.c)
            return {"eq": u == v, "ne": u != v}.get(o, {"lt": u < v, "le": u <= v, "gt": u > v, "ge": u >= v}.get(o[1:]))
        if x.w != 64: return None
        xl, xh = s.rng(x); yl, yh = s.rng(y)
        if xl is None or yl is None or xl < 0 or yl < 0:
            if o in ("eq", "ne"): pass
            else: return None
        dl, dh = s.rng(sub(x, y))
        if dl is None: return None
        r = {"lt": (dh < 0, dl >= 0), "le": (dh <= 0, dl > 0), "gt": (dl > 0, dh <= 0), "ge": (dl >= 0, dh < 0)}.get(o[1:]) if o not in ("eq", "ne") else None
        if r: return True if r[0] else (False if r[1] else None)
        if dl > 0 or dh < 0: return o == "ne"
        return None
    def feasible(s, p, upto=None):
        """the path's conditions, learning the number of iterations of finished loops on the way"""
        for c in p.facts.conds[:upto]:
            if s.holds(c) is False: return False
        # K <= t and K >= t' with t == t'
        lo, hi = {}, {}
        for c in p.facts.conds[:upto]:
            if len(c) < 3 or c[0] not in ("uge", "ule", "eq") or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
            d = sub(s.ev(c[1]), s.ev(c[2]))
            for a, k in d.t:
                if a[0] != "K" or abs(k) != 1: continue
                rest = scale(sub(d, scale(atom(a, d.w), k)), -k)
                if c[0] == "eq" or (c[0] == "uge") == (k == 1): lo.setdefault(a, set()).add(rest)
                if c[0] == "eq" or (c[0] == "ule") == (k == 1): hi.setdefault(a, set()).add(rest)
        # X >= d*T + c (unsigned) with X < d: T is the one value that leaves c mod d
        for c in p.facts.conds[:upto]:
            if len(c) < 3 or c[0] not in ("uge", "ugt", "ule", "ult", "eq") or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
            X, y = (s.ev(c[1]), s.ev(c[2])) if c[0] in ("uge", "ugt") or c[0] == "eq" and c[1].const else (s.ev(c[2]), s.ev(c[1]))
            if not X.const or not y.t: continue
            ks = [(a, k) for a, k in y.t if a[0] == "K"]; d = abs(ks[0][1]) if len(ks) == 1 else 0
            if d < 2 or any(k % d for _, k in y.t) or X.c - (c[0] in ("ugt", "ult")) >= d: continue
            a, k = ks[0]; rest = sub(y, scale(atom(a, 64), k))
            t = Lin(64, rest.sc // d, tuple((b, q // d) for b, q in rest.t))
            t = scale(t, -1) if k > 0 else t
            lo.setdefault(a, set()).add(t); hi.setdefault(a, set()).add(t)
        for a in lo:
            x = lo[a] & hi.get(a, set())
            if x: s.known[a] = x.pop()
        if s.known:
            s.memo = {}
            for c in p.facts.conds[:upto]:
                if s.holds(c) is False: return False
            for a, x in s.known.items():
                l, h = s.rng(x)
                if h is not None and h < 0: return False
        return True
# ---------------------------------------------------------------- what a path does to the bits
def buckets(A, p, base, C, back):
    """list of ('bit', bucket, mask) | ('full', from, to) and a list of complaints"""
    out, bad = [], []
    idx = lambda addr: index(C, addr, base)
    seen = {}; last = None
    for e in p.events:
        if e.kind not in ("load", "store", "cmpxchg", "rmw") or not has(e.addr, base): continue
        i = idx(e.addr)
        if i is None: bad.append(f"access at {e.addr}, not a bucket"); continue
        if e.kind == "load": last = i; continue
        if e.kind == "cmpxchg":
            last = i
            if e.callee != "ok": continue
            v, x = C.ev(e.val), C.ev(e.args[0]); m = mask_of(v, x)
            if m is None: bad.append(f"bucket {i} is set to {e.val}, which does not keep the bits of {e.args[0]}")
            else: out.append(("bit", i, m))
        elif e.kind == "rmw":
            v = C.ev(e.val)
            if e.callee != "or" or not v.const: bad.append(f"bucket {i} is changed by {e.callee} {e.val}")
            else: out.append(("bit", i, v.c))
        elif e.kind == "store" and not e.loops:
            if C.ev(e.val).c != (1 << 64) - 1 or not C.ev(e.val).const or e.size != 8: bad.append(f"bucket {i} is overwritten with {e.val}")
            else: out.append(("bit", i, (1 << 64) - 1))
    # buckets seen to hold the bits already
    obs = None
    for c in p.facts.conds:
        if c[0] not in ("eq", "ne") or not isinstance(c[1], Lin) or c[1].w != 64: continue
        for x, y in ((C.ev(c[1]), C.ev(c[2])), (C.ev(c[2]), C.ev(c[1]))):
            m = masked(x)
            if m and y.const and (c[0] == "eq" and m[0] == y.c or c[0] == "ne" and y.c == 0 and m[0] & (m[0] - 1) == 0): seen.setdefault(m[1], m[0])
    for v, m in seen.items():
        b = bucket_of(p, v, base, idx, back, C)
        if b is not None: out.append(("bit", b, m))
    # loops that have finished on this path
    for lp, body in back.items():
        K = ("K", lp)
        ks = C.known.get(K)
        st = [(e, q) for q in body for e in q.events if e.kind == "store" and lp in e.loops and has(e.addr, base)]
        if not st or not mentions_loop(p, K): continue
        kn = dict(C.known); ok = False
        for e, q in st:
            C2 = C.on(q)
            if C2 is None: continue
            d = sub(C2.ev(e.addr), base); k = dict(d.t).get(K, 0)
            rest = sub(d, scale(atom(K, 64), k))
            v = C2.ev(e.val)
            if not (v.const and v.c == (1 << 64) - 1 and e.size == 8): bad.append(f"a bucket is overwritten with {e.val} in a loop"); continue
            if ks is None or abs(k) != 8 or rest.sc % 8 or any(x % 8 for _, x in rest.t): bad.append(f"cannot tell which buckets the loop writes ({e.addr})"); continue
            lo = Lin(64, rest.sc // 8, tuple((a, x // 8) for a, x in rest.t))
            out.append(("full", lo, add(lo, ks)) if k == 8 else ("full", addc(sub(lo, ks), 1), addc(lo, 1)))
    return out, bad
def mentions_loop(p, K): return any(isinstance(x, Lin) and K in dict(x.t) for c in p.facts.conds for x in c[1:])
def has(addr, base): return all(a in dict(addr.t) for a, _ in base.t)
def mask_of(v, x):
    """v == x | mask"""
    if v == x: return 0
    a = v.single()
    if a and a[0] == "op" and a[1] == "or":
        if a[3] == x and a[4].const: return a[4].c
        if a[4] == x and a[3].const: return a[3].c
        for y, m in ((a[3], a[4]), (a[4], a[3])):
            if m.const:
                k = mask_of(y, x)
                if k is not None: return k | m.c
    if v.const and v.c == (1 << 64) - 1: return v.c
def masked(x):
    """x == v & mask"""
    a = x.single()
    if a and a[0] == "op" and a[1] == "and":
        if a[4].const: return a[4].c, a[3]
        if a[3].const: return a[3].c, a[4]
    if a: return (1 << 64) - 1, x
def bucket_of(p, v, base, idx, back, C):
    """the bucket a value was read from"""
    a = v.single()
    if a is None: return None
    if a[0] == "ld" and has(a[1], base): return idx(a[1])
    for e in p.events:
        if e.kind == "rmw" and e.res == v: return idx(e.addr)
    if a[0] == "call" and "cmpxchg" in str(a[2]):
        for e in p.events:
            if e.kind == "cmpxchg" and e.seq == a[1]: return idx(e.addr)
    if a[0] == "iv":
        # a retry loop: the value read before it, and the value seen by the failing exchange inside it
        at = set()
        for q in back.get(a[1], ()):
            C2 = C.on(q)
            if C2: at |= {index(C2, e.addr, base) for e in q.events if e.kind == "cmpxchg" and e.loops and e.loops[-1] == a[1]}
        if len(at) == 1: return at.pop()
def index(C, addr, base):
    d = sub(C.ev(addr), base)
    if d.sc % 8 == 0 and all(k % 8 == 0 for _, k in d.t): return Lin(64, d.sc // 8, tuple((a, k // 8) for a, k in d.t))
# ---------------------------------------------------------------- the classes
def expected(C):
    """first bucket, last bucket, bits of the first, bits of the last"""
    r, s = C.r, C.s; full = (1 << 64) - 1
    end = r + s
    last = addc(add(C.B, C.N), (end - 1) // 64 if end else -1)
    tail = full if end % 64 == 0 else (1 << (end % 64)) - 1
    head = full & ~((1 << r) - 1)
    if last == C.B: head = tail = head & tail
    return C.B, last, head, tail
def cover(C, ents):
    """the bits touched are exactly the requested ones"""
    first, last, head, tail = expected(C); full = (1 << 64) - 1
    def want(b):
        if b == first: return head
        if b == last: return tail
        lo, _ = C.rng(sub(b, first)); hi, _ = C.rng(sub(last, b))
        return full if lo is not None and lo > 0 and hi is not None and hi > 0 else None
    pts, rngs = {}, []
    for e in ents:
        if e[0] == "bit":
            w = want(e[1])
            if e[2] and (w is None or e[2] & ~w): return f"bits {e[2]:#x} of bucket {e[1]} are set, wanted {'none' if w is None else hex(w)}"
            pts[e[1]] = pts.get(e[1], 0) | e[2]
        else:
            l, h = C.rng(sub(e[2], e[1]))
            if h == 0: continue
            if l is None or l < 0: return f"buckets {e[1]} to {e[2]}"
            rngs.append(e)
    cur, end = first, addc(last, 1)
    for _ in range(8):
        if cur == end: break
        if pts.get(cur) is not None and pts[cur] == want(cur): cur = addc(cur, 1); continue
        nxt = [e[2] for e in rngs if e[1] == cur]
        if not nxt: return f"bits of bucket {cur} are not all set"
        # whole buckets: must not touch bits outside the request
        if cur == first and head != full: return f"bucket {cur} is filled from bit 0 on"
        over, _ = C.rng(sub(end, nxt[0]))
        if over is None or over < 0 or (nxt[0] == end and tail != full): return f"buckets {cur} to {nxt[0]} are filled, the request ends in {last}"
        cur = nxt[0]
    return None if cur == end else f"bits of bucket {cur} are not all set"
def used_ok(C, p, used, back):
    """the bucket counter covers the last bucket touched afterwards, and only grows"""
    _, last, _, _ = expected(C); need = addc(last, 1)
    got = None
    for e in p.events:
        if e.addr != used or e.kind == "load": continue
        if e.kind == "cmpxchg":
            if e.callee != "ok": continue
            v = C.ev(e.val); x = C.ev(e.args[0])
            if v != need and not grows(C, p, v, need): return f"the bucket count becomes {v}, but the last bucket touched is {last}"
            if not any(C.holds2(c, x, v) for c in p.facts.conds): return f"the bucket count may shrink from {x} to {v}"
            got = v
        elif e.kind == "rmw" and e.callee == "umax":
            if C.ev(e.val) != need: return f"the bucket count becomes at least {C.ev(e.val)}, but the last bucket touched is {last}"
            got = need
        else: return f"the bucket count is overwritten ({e.kind} {e.val})"
    if got is not None: return None
    for c in p.facts.conds:                       # seen to be large enough already
        if c[0] not in ("ugt", "uge", "ult", "ule", "eq"): continue
        x, y = (C.ev(c[1]), C.ev(c[2])) if c[0] in ("ugt", "uge", "eq") else (C.ev(c[2]), C.ev(c[1]))
        if not isinstance(x, Lin) or not x.t or x.t[0][0][0] not in ("iv", "ld", "call"): continue
        d = sub(need, y); l, h = C.rng(d)
        if h is not None and h <= (1 if c[0] in ("ugt", "ult") else 0): return None
    return "the bucket count is not brought up to the last bucket touched"
def grows(C, p, v, need): return False
def holds2(C, c, x, v):
    """condition c says x <= v"""
    if len(c) < 3 or not isinstance(c[1], Lin): return False
    a, b = C.ev(c[1]), C.ev(c[2])
    if c[0] in ("uge", "ugt"): a, b = b, a
    elif c[0] not in ("ule", "ult"): return False
    l, _ = C.rng(sub(v, b)) if isinstance(b, Lin) else (None, None)
    return a == x and l is not None and l >= (-1 if c[0] in ("ult", "ugt") else 0)
Class.holds2 = holds2
_G = {}
def one(args):
    r, lens = args; out = []
    A, base, used, back, rets = _G["A"], _G["base"], _G["used"], _G["back"], _G["rets"]
    n = 0
    for s, N in lens:
        if N == 0 and s == 0: continue
        C0 = Class(r, s, N); live = 0
        for p in rets:
            C = C0.on(p)
            if not C: continue
            live += 1; n += 1
            ents, bad = buckets(A, p, base, C, back)
            w = bad[0] if bad else cover(C, ents)
            if w: out.append(("exact", r, s, N, w, where(p), conds(p)))
            w = used_ok(C, p, used, back)
            if w: out.append(("size", r, s, N, w, where(p), conds(p)))
        if not live: out.append(("exact", r, s, N, "no path handles this request", "", ""))
        if len(out) > 3: break
    return n, out
def backs(A):
    b = {}
    for p in A.paths:
        if isinstance(p.end, tuple) and p.end[0] == "back": b.setdefault(p.end[1], []).append(p)
    return b
def check(rep):
    M = module14()
    rep.assumptions += ["each bucket is a lock-free 64-bit atomic", "the bitmap memory is zero when the section is constructed (a fresh, sparse file; C08)"]
    rep.rule("exact", "the bits made 1 are exactly the bits requested")
    rep.rule("atomic", "a bucket is only changed by an exchange that keeps the bits it has seen, by an atomic or, or by a store of all ones")
    rep.rule("capacity", "a request is refused, with an error, exactly if it reaches beyond the capacity, for every position and length")
    rep.rule("read", "a bit reads as set exactly if its bit in its bucket is 1")
    rep.rule("size", "the size covers the last bucket touched, never shrinks, and never exceeds what was touched")
    b0 = [p for p in analyze(M, "w_size_SourceIndexBits").paths if p.end == "ret"]
    used = None
    for p in b0:
        t = p.ret.t
        if rep.ob("size", "BitmapSectionBase::size", len(b0) == 1 and len(t) == 1 and t[0][1] == 8 and p.ret.c == 0 and t[0][0][0] == "ld", f"size() is {p.ret}, not 8 bytes per bucket used", where(p)): used = t[0][0][1]
    if used is None: return
    cap = 1 << 31
    A = analyze(M, "w_bit_is_set", nonnull=(0,)); rep.count("paths", len(A.paths)); base = None; dec = 0
    cap = const_cap(A, rep)
    for p in A.paths:
        if p.end == "noreturn": rep.ob("capacity", "BitmapSectionBase::is_set", stopped(p) and beyond(p, at(A, 1), cap), f"refused although inside (path: {conds(p)})", where(p)); continue
        rep.ob("capacity", "BitmapSectionBase::is_set", inside(p, at(A, 1), cap), f"a position beyond the capacity is read (path: {conds(p)})", where(p))
        ld = [e for e in p.events if e.kind == "load" and any(a[0] == "ld" for a, _ in e.addr.t)]
        if not rep.ob("read", "BitmapSectionBase::is_set", len(ld) == 1, f"{len(ld)} buckets are read", where(p)): continue
        base = Lin(64, 0, tuple((a, k) for a, k in ld[0].addr.t if a[0] == "ld")); cell = base.t[0][0][1]
        for r in range(W):
            C = Class(r, None, 0).on(p)
            if not C: continue
            d = sub(C.ev(ld[0].addr), base)
            rep.ob("read", "BitmapSectionBase::is_set", d == scale(C.B, 8), f"bit 64*B+{r} is read from {d} bytes into the bitmap", where(p))
            ok = reads(C, p, ld[0].val, r); dec += ok
            rep.ob("read", "BitmapSectionBase::is_set", ok, f"bit 64*B+{r}: result {C.ev(p.ret)} is not that bit", where(p))
    if not rep.ob("read", "BitmapSectionBase::is_set", base is not None and dec >= W, "not every bit position is readable"): return
    # single bits
    A = analyze(M, "w_bit_set", nonnull=(0,), stable=lambda a: a == cell); rep.count("paths", len(A.paths)); back = backs(A)
    everywhere(rep, A, base, used, "BitmapSectionBase::set")
    for p in A.paths:
        if p.end == "noreturn": rep.ob("capacity", "BitmapSectionBase::set", stopped(p) and beyond(p, at(A, 1), cap) and not touched(p, base, used), f"refused although inside, or after a change (path: {conds(p)})", where(p)); continue
        if p.end != "ret": continue
        rep.ob("capacity", "BitmapSectionBase::set", inside(p, at(A, 1), cap), f"a position beyond the capacity is accepted (path: {conds(p)})", where(p))
        bads = []
        for r in range(W):
            C = Class(r, 1, 0).on(p)
            if not C: continue
            ents, bad = buckets(A, p, base, C, back); rep.count("classes")
            w = bad[0] if bad else cover(C, ents)
            if w: bads.append(("exact", r, w))
            w = used_ok(C, p, used, back)
            if w: bads.append(("size", r, w))
            was, v = sees(C, p, base, back, r); rv = C.ev(p.ret)
            if not (rv.const and was == rv.c or v is not None and reads(C, p, v, r)): bads.append(("read", r, f"returns {C.ev(p.ret)}, the bit was {was}"))
        for rule in ("exact", "size", "read"):
            x = [b for b in bads if b[0] == rule]
            rep.ob(rule, "BitmapSectionBase::set", not x, x and f"bit 64*B+{x[0][1]}: {x[0][2]} (and {len(x) - 1} more positions)", where(p))
    # ranges
    A = analyze(M, "w_bit_range", nonnull=(0,), stable=lambda a: a == cell); rep.count("paths", len(A.paths)); back = backs(A)
    everywhere(rep, A, base, used, "BitmapSectionBase::set_range")
    b, n = at(A, 1), at(A, 2)
    rets = []
    for p in A.paths:
        if p.end == "noreturn": rep.ob("capacity", "BitmapSectionBase::set_range", stopped(p) and not touched(p, base, used) and over(p, b, n, cap), f"refused although inside, or after a change (path: {conds(p)})", where(p)); continue
        if p.end != "ret": continue
        if p.facts.holds("eq", n, const(0, 64)) is True:
            rep.ob("exact", "BitmapSectionBase::set_range", not touched(p, base, used), "an empty range changes the bitmap", where(p)); continue
        rets.append(p)
        rep.ob("capacity", "BitmapSectionBase::set_range", room(p, b, n, cap), f"a range beyond the capacity is accepted (path: {conds(p)})", where(p))
    _G.update(A=A, base=base, used=used, back=back, rets=rets)
    lens = [(s, N) for N in (0, 1, None) for s in range(W)]
    import multiprocessing
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork")) as ex: res = list(ex.map(one, [(r, lens) for r in range(W)]))
    bad = [x for _, o in res for x in o]
    rep.count("classes", sum(k for k, _ in res)); done = {}
    for rule, r, s, N, w, wh, cs in bad:
        if done.setdefault((rule, wh), 0) < 2:
            rep.ob(rule, "BitmapSectionBase::set_range", False, f"from bit 64*B+{r}, {s if N == 0 else f'64*{N if N is not None else chr(78)}+{s}'} bits: {w}", wh)
        done[(rule, wh)] += 1
    rep.ob("exact", "BitmapSectionBase::set_range", not bad, f"{len(bad)} combinations of position and length are wrong")
    for rule in ("exact", "size"):
        for r in range(W): rep.ob(rule, f"set_range, positions 64*B+{r}", not [x for x in bad if x[0] == rule and x[1] == r], "see above")
def everywhere(rep, A, base, used, fn):
    """no write that can undo a concurrent setter, on any path including the loop bodies"""
    cell = base.t[0][0][1]
    for p in A.paths:
        for e in p.events:
            if e.kind in ("store", "cmpxchg", "rmw") and e.addr == cell: rep.ob("atomic", fn, False, "the bitmap is moved to other memory", f"{fn} at {e.loc}")
            if e.kind not in ("store", "cmpxchg", "rmw") or not has(e.addr, base) and e.addr != used: continue
            if e.addr == used:
                ok = e.kind == "cmpxchg" or e.kind == "rmw" and e.callee == "umax"; w = f"the bucket count is overwritten without regard to other setters ({e.kind} {e.val})"
            else:
                ok = e.kind == "store" and e.val.const and e.val.c == (1 << (8 * e.size)) - 1 or e.kind == "rmw" and e.callee == "or" or e.kind == "cmpxchg" and keeps(e.val, e.args[0])
                w = f"a bucket is changed by {e.kind} to {e.val}: bits set by another thread in between are lost"
            rep.ob("atomic", fn, ok, w, f"{fn} at {e.loc}")
def keeps(v, x):
    if v == x: return True
    a = v.single()
    return bool(v.const and v.c == (1 << 64) - 1 or a and a[0] == "op" and a[1] == "or" and (keeps(a[3], x) or keeps(a[4], x)))
def touched(p, base, used): return [e for e in p.events if e.kind in ("store", "cmpxchg", "rmw") and (has(e.addr, base) or e.addr == used)]
def const_cap(A, rep):
    """the capacity: the constant a position is compared with"""
    for p in A.paths:
        for c in p.facts.conds:
            for x, y, ops in ((c[1], c[2], ("ult", "uge")), (c[2], c[1], ("ugt", "ule"))):
                if x == at(A, 1) and isinstance(y, Lin) and y.const and c[0] in ops: return y.c
            for x, y, ops in ((c[1], c[2], ("ugt", "ule")), (c[2], c[1], ("ult", "uge"))):
                if x == at(A, 1) and isinstance(y, Lin) and y.const and c[0] in ops: return y.c + 1
    raise AnalysisBroken("is_set() compares its position with no capacity")
def beyond(p, x, cap): return p.facts.holds("uge", x, const(cap, 64)) is True
def inside(p, x, cap): return p.facts.holds("ult", x, const(cap, 64)) is True
def room(p, b, n, cap):
    """cap - b >= n without relying on a sum that may wrap"""
    if not (inside(p, b, cap) or p.facts.holds("ule", b, const(cap, 64)) is True): return False
    small = p.facts.holds("ule", n, const(cap, 64)) is True
    for c in p.facts.conds:
        if c[0] not in ("uge", "ule", "ugt", "ult") or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
        x, y = (c[1], c[2]) if c[0] in ("uge", "ugt") else (c[2], c[1])
        d = sub(sub(x, y), sub(sub(const(cap, 64), b), n))
        if not d.const or d.sc > (1 if c[0] in ("ugt", "ult") else 0): continue
        if ARG(1) not in dict(y.t) or small or nowrap(p, b, n): return True
    return False
def nowrap(p, b, n): return any(c[0] in ("uge", "ule") and sorted(map(str, c[1:3])) == sorted(map(str, (add(b, n), b))) for c in p.facts.conds)
def over(p, b, n, cap):
    if beyond(p, b, cap) or p.facts.holds("ugt", n, const(cap, 64)) is True: return True
    for c in p.facts.conds:
        if c[0] not in ("uge", "ule", "ugt", "ult") or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
        x, y = (c[1], c[2]) if c[0] in ("ult", "ule") else (c[2], c[1])       # x < y
        if c[0] in ("ult", "ugt") and x == add(b, n) and y == b: return True
        d = sub(sub(x, y), sub(sub(const(cap, 64), b), n))
        if d.const and d.sc >= (0 if c[0] in ("ult", "ugt") else 1): return True
    return False
def reads(C, p, v, r):
    """the result is bit r of v"""
    t, v = C.ev(p.ret), C.ev(v)
    if t.const:
        for c in p.facts.conds:
            x, y = C.ev(c[1]), C.ev(c[2])
            if not isinstance(x, Lin) or not isinstance(y, Lin): continue
            for u, k in ((x, y), (y, x)):
                m = masked(u)
                if m and m == (1 << r, v) and k.const and c[0] in ("eq", "ne"):
                    return (c[0] == "eq") == (k.c != 0) if t.c else (c[0] == "eq") == (k.c == 0)
        return False
    b = bits(t)
    if b and b[0] in [(a, r) for a, _ in v.t] and not any(b[1:]): return True
    a, neg = boolean(t)
    if a and a[0] == "cmp" and a[1] in ("ne", "eq"):
        x, y = (a[2], a[3]) if a[3].const else (a[3], a[2]); m = masked(x)
        if m and m == (1 << r, v) and y.const and y.c in (0, 1 << r): return ((a[1] == "ne") == (y.c == 0)) != neg
        bb = bits(x)
        if bb and y.const and y.c == 0 and a[1] == "ne" and [q for q in bb if q] == [(w, r) for w, _ in v.t]: return True
    return False
def boolean(t):
    """(comparison, negated) of a truth value"""
    neg = False
    while True:
        if t.w == 1 and t.c == 1 and len(t.t) == 1: neg = not neg; t = Lin(1, 0, ((t.t[0][0], 1),))
        a = t.t[0][0] if len(t.t) == 1 and t.c == 0 else None
        if a and a[0] == "zext": t = a[2]; continue
        return a, neg
def sees(C, p, base, back, r):
    """the value of the bucket the path has seen before its change, and what it knows about the bit in it"""
    for e in p.events:
        if e.kind == "rmw" and e.callee == "or" and has(e.addr, base): return None, e.res
    for c in p.facts.conds:
        if c[0] not in ("eq", "ne") or not isinstance(c[1], Lin) or c[1].w != 64: continue
        for x, y in ((C.ev(c[1]), C.ev(c[2])), (C.ev(c[2]), C.ev(c[1]))):
            m = masked(x)
            if m and m[0] == 1 << r and y.const and y.c in (0, 1 << r): return int((c[0] == "eq") == (y.c != 0)), m[1]
    return None, None
