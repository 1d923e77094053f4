"""Value-flow analysis of the string table: what is reserved and stored for a name, what reading an offset gives back, and
that the iterator steps exactly over what was reserved, for even and odd lengths alike (congruence domain modulo 2)."""
from .recorders import *
from .c06_section import ptr
MIN_OBLIGATIONS = 25
def lin2(t, a, r):
    """t as (m, c), meaning m*k + c, when atom a is 2*k + r; None when t is not of that shape"""
    if not isinstance(t, Lin): return None
    m, c = 0, t.sc
    for x, k in t.t:
        v = atom2(x, a, r)
        if v is None: return None
        m += k * v[0]; c += k * v[1]
    return m, c
def atom2(x, a, r):
    if x == a: return 2, r
    if x[0] in ("zext", "sext", "trunc"): return lin2(x[2], a, r)
    if x[0] == "op" and isinstance(x[4], Lin) and x[4].const:
        v = lin2(x[3], a, r); c = x[4].c
        if v is None: return None
        if x[1] == "and" and v[0] % 2 == 0:
            if c == 1: return 0, v[1] & 1
            if c & 1 == 0 and c >> 1 & 0x7fff == 0x7fff: return v[0], v[1] & ~1
            return None
        if x[1] == "urem" and c == 2 and v[0] % 2 == 0: return 0, v[1] % 2
        if x[1] in ("shl",): return v[0] << c, v[1] << c
        if x[1] == "lshr" and c == 1 and v[0] % 2 == 0: return v[0] // 2, v[1] >> 1
        if x[1] == "udiv" and c == 2 and v[0] % 2 == 0: return v[0] // 2, v[1] // 2
        if x[1] == "mul": return v[0] * c, v[1] * c
        if x[1] == "xor" and c == 1 and v[0] % 2 == 0: return v[0], v[1] ^ 1
        if x[1] == "or" and c == 1 and v[0] % 2 == 0: return v[0], v[1] | 1
    if x[0] == "sel": return None
    return None
def possible(p, a, r):
    """can the path be taken when atom a has remainder r modulo 2?"""
    for c in p.facts.conds:
        if c[0] == "bool":
            b = c[1]
            if isinstance(b, tuple) and b[0] == "trunc" and b[1] == 1:
                v = lin2(b[2], a, r)
                if v and v[0] % 2 == 0 and bool(v[1] & 1) != bool(c[2]): return False
            continue
        if c[0] not in ("eq", "ne"): continue
        x, y = lin2(c[1], a, r), lin2(c[2], a, r)
        if x and y and x[0] == y[0] and (x[1] == y[1]) != (c[0] == "eq"): return False
    return True
def check(rep):
    M = module("flat"); A0 = module("api"); po, bo, lo = own(A0, "w_size_StringTable")
    s = Sec("StringTable", None, ptr(po), ptr(bo), ptr(lo)); stable = lambda a: a in (s.begin, ptr(bo + 8))
    b0 = atom(("ld", s.begin, 8, 0), 64)
    rep.assumptions += ["pthread mutexes behave as documented", "the section starts at an even address (C08)"]
    rep.rule("room", "the reservation covers the length prefix and every byte of the name")
    rep.rule("prefix", "the prefix holds the exact length, and only names whose length fits it are stored")
    rep.rule("bytes", "byte i of the name is stored right after the prefix at position i, for every i")
    rep.rule("handle", "the offset returned is the start of the stored name")
    rep.rule("read", "reading an offset gives the bytes after the prefix, as many as the prefix says")
    rep.rule("walk", "iteration starts at the first name, steps exactly over what was reserved, and ends at the write position")
    rep.rule("stops", "a path that does not return reports an error")
    A = analyze(M, "w_add_string", nonnull=(0,), stable=stable); n = at(A, 2); na = n.single(); src = at(A, 1); pre = None
    rep.count("functions", 7); rep.count("paths", len(A.paths))
    need = {}
    def copies(p, u): return [e for e in in_iter(p, u) if e.kind == "store" and e.size == 1 and not (isinstance(e.addr, Lin) and base_of(e.addr) and base_of(e.addr)[0] == "alloca")]
    U = loops_with(A, copies)
    for p in A.paths:
        w = where(p)
        if p.end == "noreturn": rep.ob("stops", "add_string", stopped(p), conds(p), w); continue
        rs = reservations(A, p, {"s": s})
        if not rs:
            if p.end == "ret": rep.ob("handle", "add_string", p.ret == const(0, 64), f"returns {p.ret} without having stored the name", w)
            continue
        if not rep.ob("room", "add_string", len(rs) == 1, f"{len(rs)} reservations for one name", w): continue
        r = rs[0]
        head = [e for e in r.writes if not e.loops and e.addr == r.start]
        if not rep.ob("prefix", "add_string", len(head) == 1 and isinstance(head[0].val, Lin), f"{len(head)} writes of the prefix", w): continue
        h = head[0]; pre = h.size
        rep.ob("prefix", "add_string", bits(h.val)[:8 * pre] == bits(n)[:8 * pre] and p.facts.holds("ult", n, const(1 << 8 * pre, 64)) is True, f"the prefix is {h.val}, the length is {n} (path: {conds(p)})", w)
        for q in (0, 1):
            if not possible(p, na, q): continue
            v = lin2(r.n, na, q)
            if rep.ob("room", "add_string", v is not None and v[0] == 2 and v[1] >= q + pre, f"{r.n} bytes reserved for {n} bytes and a {pre}-byte prefix (length modulo 2 = {q})", w): need.setdefault(q, set()).add(v[1])
        cp = [e for e in p.events if e.kind in ("memcpy", "memmove") and e.args[0] == add(r.start, const(pre, 64)) and e.args[1] == src and e.args[2] == n]
        if p.end == "ret":
            rep.ob("bytes", "add_string", bool(cp) or ran_to(p, U, n, copies), f"returns although not every byte need have been copied (path: {conds(p)})", w)
            rest = sub(p.ret, const(1 << 32, 64)) if isinstance(p.ret, Lin) else None
            d = sub(r.start, b0)
            rep.ob("handle", "add_string", rest is not None and bits(rest)[:32] == bits(d)[:32] and all(x == 0 for x in bits(rest)[32:]), f"returns {p.ret}", w)
        for u in U:
            if isinstance(p.end, tuple) and p.end != ("back", u): continue
            for e in copies(p, u):
                i = index_of(sub(e.addr, add(r.start, const(pre, 64))), u, n)
                rep.ob("bytes", "add_string", i is not None and isinstance(e.val, Lin) and e.val.single() and e.val.single()[0] == "ld" and e.val.single()[1] == add(src, i) and e.val.single()[2] == 1, f"byte stored at {e.addr} is {e.val}", w)
        others = [e for e in r.writes if e is not h and not any(e in copies(p, u) for u in U)]
        # padding after the name may be cleared, nothing else
        rep.ob("bytes", "add_string", all(not e.loops and p.facts.holds("uge", sub(e.addr, r.start), add(n, const(pre, 64))) is True for e in others), f"also writes {[str(e.addr) for e in others]}", w)
    rep.ob("room", "add_string", set(need) == {0, 1} and all(len(v) == 1 for v in need.values()), f"reserved lengths by parity: {need}")
    # ---- reading back
    def get(fn, base):
        B = analyze(M, fn, nonnull=(0,), stable=stable if fn == "w_from_offset" else None)
        for p in B.paths:
            e = p.calls("w_string")
            if p.end == "noreturn": rep.ob("stops", fn[2:], stopped(p), conds(p), where(p)); continue
            st = base(B); x = e[0].args[1].single() if len(e) == 1 and isinstance(e[0].args[1], Lin) else None
            if x and x[0] == "zext": x = x[2].single()
            ok = len(e) == 1 and e[0].args[0] == add(st, const(pre or 2, 64)) and x and x[0] == "ld" and x[1] == st and x[2] == pre
            rep.ob("read", fn[2:], ok, f"yields {e[0].args if e else None}, the name starts at {st}", where(p))
    get("w_from_offset", lambda B: add(b0, atom(("zext", 64, at(B, 1)), 64) if at(B, 1).w == 32 else at(B, 1)))
    get("w_iter_get", lambda B: atom(("ld", ptr(0), 8, 0), 64))
    for fn in ("w_iter_next", "w_iter_post"):
        B = analyze(M, fn, nonnull=(0,)); it = atom(("ld", ptr(0), 8, 0), 64); got = {}
        for p in B.paths:
            v = B.load(p, ptr(0), 8); d = sub(v, it)
            la = {a for a in atoms_of(d) | {a for c in p.facts.conds if c[0] != "bool" for t in c[1:] for a in atoms_of(t)} if a[0] == "ld" and a[1] == it and a[2] == pre}
            if not rep.ob("walk", fn[2:], p.end == "ret" and len(la) == 1, f"step {d} does not depend on the stored length", where(p)): continue
            a = next(iter(la))
            for q in (0, 1):
                if possible(p, a, q): got.setdefault(q, set()).add(lin2(d, a, q))
        for q in (0, 1): rep.ob("walk", fn[2:], got.get(q) == {(2, x) for x in need.get(q, ())}, f"steps {got.get(q)} where {need.get(q)} bytes were reserved (as m*k + c for length 2k + {q})")
    for fn, want in (("w_table_begin", lambda p: b0), ("w_table_end", None)):
        B = analyze(M, fn, nonnull=(0,), stable=stable)
        for p in B.paths:
            if p.end != "ret": continue
            e = p.calls("w_iter_at"); x = e[0].args[0] if e else None
            ok = x == b0 if want else isinstance(x, Lin) and x.single() and x.single()[0] == "ld" and x.single()[1] == s.pos
            rep.ob("walk", fn[2:], ok, f"{fn[8:]} is {x}", where(p))
    from .pyhalf import string_reader
    string_reader(rep, pre)
