"""Value-flow analysis of the sanitizer runtime's label functions (LLVM IR, helpers inlined, loops as generic iterations): what
each path returns or writes is compared with the combination, reading or setting the label algebra demands."""
from .shadow import *
MIN_OBLIGATIONS = 40
def reached(F, done, n):
    """equal, whether counted in labels or in the bytes they take (4 each)"""
    return any(F.holds("eq", scale(done, k), scale(n, k)) is True for k in (1, 4))
def check(rep):
    M = dfsan()
    rep.assumptions += ["origin tracking is off (the tracking runtime never switches it on)", "the labels given to __dfsan_union differ and __dfsan_union_load gets at least one label (both inserted by the instrumentation under that condition)",
                        "a region given to the label functions lies inside application memory", "released pages read as zero afterwards (anonymous private mapping)"]
    rep.rule("combine", "combining: zero is neutral, equal labels stay, different labels give the union of exactly those two")
    rep.rule("read", "reading a region combines the labels of all its bytes, from the first to the last")
    rep.rule("set", "setting a region writes the label to every byte from the first to the last")
    rep.rule("only", "no label outside the region is written")
    rep.rule("add", "adding a label combines it with the label of every byte of the region")
    rep.rule("get", "asking for the label of a value yields that value's label")
    combine(rep, M, "__dfsan_union"); combine(rep, M, "dfsan_union")
    a = lambda i, w=64: atom(("arg", i), w)
    readall(rep, M, "__dfsan_union_load", a(0), a(1)); readall(rep, M, "dfsan_read_label", shadow(a(0)), a(1))
    setall(rep, M, "dfsan_set_label", 1, 2); setall(rep, M, "__dfsan_set_label", 2, 3)
    addall(rep, M)
    A = analyze(M, "__dfsw_dfsan_get_label")
    for p in A.paths: rep.ob("get", "dfsan_get_label", p.end == "ret" and p.ret == a(1, 32) and A.load(p, a(2), 4) == const(0, 32), f"yields {p.ret}, result label {A.load(p, a(2), 4)}", where(p))
    rep.count("functions", 8)
def combine(rep, M, fn):
    a, b = atom(("arg", 0), 32), atom(("arg", 1), 32)
    A = analyze(M, fn, assume=(lambda f, env, F: f.assume("ne", a, b)) if fn == "__dfsan_union" else None)
    rep.count("paths", len(A.paths))
    for p in A.paths:
        if not rep.ob("combine", fn, p.end == "ret", f"does not return ({conds(p)})", where(p)): continue
        bad = joins(A, p, p.ret, a, b); rep.ob("combine", fn, bad is None, f"{bad} (path: {conds(p)})", where(p))
        foreign(rep, A, p, fn, lambda e: False)
def foreign(rep, A, p, fn, allowed):
    for e in p.events:
        if e.kind == "store":
            b = base_of(e.addr)
            if b and b[0] in ("alloca", "glob"): continue
            rep.ob("only", fn, allowed(e), f"writes {str(e)[:160]}", e.loc)
def elem(t, base):
    """(loop, element number) a 4-byte read at base + 4*(K+e), or (None, e) at base + 4*e"""
    s = t.single() if isinstance(t, Lin) else None
    if not (s and s[0] == "ld" and s[2] == 4): return None
    d = sub(lin(s[1]), base); ks = [(x, c) for x, c in d.t if x[0] == "K"]
    if len(ks) == 1 and ks[0][1] == 4 and len(d.t) == 1 and d.sc % 4 == 0: return ks[0][0][1], d.sc // 4
    if d.const and d.sc % 4 == 0: return None, d.sc // 4
    return None
def readall(rep, M, fn, base, n):
    A = analyze(M, fn, assume=(lambda f, env, F: f.assume("uge", n, const(1, 64))) if fn.startswith("__") else None)
    rep.count("paths", len(A.paths)); good = {}; returned = 0
    def start(v, F):
        """number of leading bytes an initial value combines"""
        if zero(F, v): return 0
        return 1 if elem(v, base) == (None, 0) else None
    for p in A.paths:
        foreign(rep, A, p, fn, lambda e: False)
        if p.end == "ret" or p.end[0] != "back": continue
        uid = p.end[1]; li = A.loopinfo[uid]
        for phi, v0 in li.init.items():
            cur = atom(("iv", uid, phi), 32)
            if not (isinstance(v0, Lin) and v0.w == 32 and li.steps.get(phi) == cur): continue
            s0 = start(v0, li.entry_facts); nxt = carried(p, uid, phi); ok = None
            if s0 is not None:
                el = [(t, elem(t, base)) for t in loads(p)]
                el = [t for t, q in el if q == (uid, s0)]
                ok = "the next byte's label is not read" if not el else joins(A, p, nxt, cur, el[0])
                good.setdefault((uid, phi), []).append(ok); ok = ok
                rep.ob("read", fn, ok is None, f"{ok} (path: {conds(p)[:300]})", where(p))
            else: rep.ob("read", fn, False, f"starts with {v0}", where(p))
    for p in A.paths:
        if p.end != "ret":
            rep.ob("read", fn, p.end[0] == "back", f"does not return ({conds(p)[:200]})", where(p)); continue
        r = p.ret; F = p.facts; s = r.single() if isinstance(r, Lin) else None
        if zero(F, r) and not (s and s[0] == "iv"): rep.ob("read", fn, zero(F, n), f"yields no label although the region may not be empty ({conds(p)[:200]})", where(p)); continue
        if elem(r, base) == (None, 0): rep.ob("read", fn, eq(F, n, const(1, 64)), f"yields the first label only ({conds(p)[:200]})", where(p)); continue
        if not rep.ob("read", fn, bool(s and s[0] == "iv" and (s[1], s[2]) in good), f"yields {r} ({conds(p)[:200]})", where(p)): continue
        uid = s[1]; s0 = start(A.loopinfo[uid].init[s[2]], A.loopinfo[uid].entry_facts); returned += 1
        done = add(atom(("K", uid), 64), const(s0, 64))
        rep.ob("read", fn, reached(F, done, n), f"stops after {done} of {n} bytes ({conds(p)[:200]})", where(p))
    rep.ob("read", fn, returned >= 1 and good, "no path combines the labels of a region")
def loads(p):
    out = set()
    for c in p.facts.conds:
        for t in c[1:3]:
            if isinstance(t, Lin): out |= {atom(a, 32) for a in atoms_of(t) if a[0] == "ld" and a[2] == 4}
    for e in p.events:
        for t in ([e.val] if e.kind == "store" else list(e.args or ())):
            if isinstance(t, Lin): out |= {atom(a, 32) for a in atoms_of(t) if a[0] == "ld" and a[2] == 4}
    for x in p.env.get(("carried", p.end[1]), {}).values() if isinstance(p.end, tuple) else ():
        if isinstance(x, Lin): out |= {atom(a, 32) for a in atoms_of(x) if a[0] == "ld" and a[2] == 4}
    return out
def setall(rep, M, fn, ai, ni):
    lab, addr, n = atom(("arg", 0), 32), atom(("arg", ai), 64), atom(("arg", ni), 64); base = shadow(addr)
    A = analyze(M, fn); rep.count("paths", len(A.paths)); n_ret = 0
    for p in A.paths:
        F = p.facts; w = where(p); txt = f"(path: {conds(p)[:300]})"
        calls = pieces(rep, A, p, fn, base, n)
        if p.end == "ret":
            n_ret += 1; L = done(A, p)
            if calls:
                rep.ob("set", fn, zero(F, lab), f"clears the labels although the label may not be zero {txt}", w)
                rep.ob("set", fn, not L and cover(p, calls, base, n), f"the parts cleared do not make up the region: {[(str(x), str(y)) for x, y, _ in calls]}"[:600], w)
            elif not L: rep.ob("set", fn, zero(F, n), f"nothing is written {txt}", w)
            else: rep.ob("set", fn, len(L) == 1 and reached(F, atom(("K", L[0]), 64), n), f"stops before the last byte {txt}", w)
            foreign(rep, A, p, fn, lambda e: any(idx(e.addr, base, u) == 0 for u in L))
        elif p.end[0] == "back":
            uid = p.end[1]; st = [e for e in p.events if e.kind == "store" and idx(e.addr, base, uid) == 0 and e.size == 4]
            foreign(rep, A, p, fn, lambda e: idx(e.addr, base, uid) == 0 and e.size == 4 and F.holds("ult", atom(("K", uid), 64), n) is not False)
            same = any(elem(t, base) == (uid, 0) and eq(F, t, lab) for t in loads(p))
            rep.ob("set", fn, (len(st) >= 1 and eq(F, st[-1].val, lab)) or (not st and same), f"a byte of the region does not get the label {txt}", w)
            rep.ob("only", fn, more(F, uid, n), f"goes on after the last byte {txt}", w)
        else: rep.ob("set", fn, any(c[0] in ("ult", "ugt") and "ctpop" in repr(c) for c in F.conds), f"stops {txt}", w)     # page size not a power of two
    rep.ob("set", fn, n_ret >= 2, "fewer than two ways to set a region")
def more(F, uid, n):
    K = atom(("K", uid), 64); d = sub(n, K)
    if F.holds("ne", scale(K, 4), scale(n, 4)) is True or F.holds("ult", scale(K, 4), scale(n, 4)) is True: return True
    return F.holds("ult", K, n) is True or F.holds("ne", K, n) is True or F.holds("ne", d, const(0, 64)) is True or F.holds("ne", scale(d, -1), const(0, 64)) is True
def done(A, p): return [u for u in A.loopinfo if any(a == ("K", u) for c in p.facts.conds for t in c[1:3] if isinstance(t, Lin) for a in atoms_of(t))]
ZERO = re.compile(r"(^|::)(internal_memset|memset)\(|^memset$"); ISZERO = re.compile(r"(^|::)mem_is_zero\("); RELEASE = re.compile(r"(^|::)ReleaseMemoryPagesToOS\(")
def pieces(rep, A, p, fn, base, n):
    """(from, to, aligned) of every part the path clears in one go"""
    out = []
    for e in p.calls():
        d = e.dname or e.callee or ""
        if ZERO.search(d) and rep.ob("set", fn, e.args[1] == const(0, e.args[1].w), f"clears with {e.args[1]}", e.loc): out.append((lin(e.args[0]), lin(add(e.args[0], e.args[2])), None))
        elif ISZERO.search(d):
            v = p.facts.holds("ne", e.res, const(0, e.res.w)) if e.res.w > 1 else next((c[2] for c in p.facts.conds if c[0] == "bool" and c[1] == e.res.single()), None)
            if v: out.append((lin(e.args[0]), lin(add(e.args[0], e.args[1])), None))
        elif RELEASE.search(d): out.append((lin(e.args[0]), lin(e.args[1]), (e.args[0], e.args[1])))
    return out
def aligned(t):
    """(rounded term, page size, +1 up / -1 down) of a page-rounded address"""
    s = t.single() if isinstance(t, Lin) else None
    if not (s and s[0] == "op" and s[1] == "and"): return None
    for x, m in ((s[3], s[4]), (s[4], s[3])):
        P = scale(m, -1)
        if m.const and (m.c & -m.c) * -1 % (1 << 64) != m.c: continue
        if P.const and P.c < 4096: continue
        if not P.const and P.single() is None: continue
        if not P.const and P.single()[0] not in ("ld", "call"): continue
        up = sub(lin(x), addc(P)); return P, lin(x), up
    return None
def addc(P): return Lin(P.w, P.c - 1, P.t)
def cover(p, parts, base, n):
    """the parts chain from the first to the last label, never backwards"""
    at, end = base, add(base, scale(n, 4)); todo = list(parts); F = p.facts
    for x, y, al in todo:
        if al and not (aligned(al[0]) and aligned(al[1])): return False
    up, down = [], []
    while todo:
        nx = [q for q in todo if q[0] == at]
        if not nx: return False
        at = nx[0][1]; todo.remove(nx[0])
    if at != end: return False
    # no part runs backwards: the first rounds up from the start, the last rounds down from the end, and up <= down on this path
    for x, y, al in parts:
        if al:
            a, b = aligned(al[0]), aligned(al[1])
            if a[2] != base or b[1] != end: return False
            if not ordered(F, al[0], al[1], a[0]): return False
        else:
            # cleared part: [start, up) or [down, end)
            okx = x == base and any(q[2] and lin(q[2][0]) == y for q in parts)
            oky = y == end and any(q[2] and lin(q[2][1]) == x for q in parts)
            if not (okx or oky): return False
    return True
def ordered(F, lo, hi, P):
    """the path knows lo + k*P <= hi for some k >= 0"""
    if F.holds("ule", lo, hi) is True: return True
    for c in F.conds:
        if c[0] not in ("ult", "ule") or c[2] != hi: continue
        d = sub(c[1], lo)
        if d.const and d.sc >= 0: return True
        if len(d.t) == 1 and d.c == 0 and d.t[0][0] == P.single() and d.t[0][1] > 0: return True
    for c in F.conds:
        if c[0] in ("ugt", "uge") and c[1] == hi:
            d = sub(c[2], lo)
            if (d.const and d.sc >= 0) or (len(d.t) == 1 and d.c == 0 and d.t[0][0] == P.single() and d.t[0][1] > 0): return True
    return False
def addall(rep, M):
    fn = "dfsan_add_label"; lab, addr, n = atom(("arg", 0), 32), atom(("arg", 1), 64), atom(("arg", 2), 64); base = shadow(addr)
    A = analyze(M, fn); rep.count("paths", len(A.paths)); some = False
    for p in A.paths:
        F = p.facts; w = where(p); txt = f"(path: {conds(p)[:300]})"
        if p.end == "ret":
            L = done(A, p)
            rep.ob("add", fn, zero(F, lab) or zero(F, n) or (len(L) == 1 and reached(F, atom(("K", L[0]), 64), n)), f"stops before the last byte {txt}", w)
            foreign(rep, A, p, fn, lambda e: any(idx(e.addr, base, u) == 0 for u in L))
        elif p.end[0] == "back":
            uid = p.end[1]; some = True
            st = [e for e in p.events if e.kind == "store" and idx(e.addr, base, uid) == 0 and e.size == 4]
            old = [t for t in loads(p) if elem(t, base) == (uid, 0)]
            if not rep.ob("add", fn, bool(old) and len(st) <= 1, f"the present label of the byte is not read {txt}", w): continue
            bad = joins(A, p, st[0].val if st else old[0], old[0], lab)
            rep.ob("add", fn, bad is None, f"{bad} {txt}", w)
            foreign(rep, A, p, fn, lambda e: idx(e.addr, base, uid) == 0 and e.size == 4)
            rep.ob("only", fn, more(F, uid, n), f"goes on after the last byte {txt}", w)
        else: rep.ob("add", fn, False, f"stops {txt}", w)
    rep.ob("add", fn, some, "no byte is ever combined with the label")
