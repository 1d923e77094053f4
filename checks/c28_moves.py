"""Value-flow analysis of the copying wrappers (LLVM IR, helpers inlined, loops as generic iterations): on every path the label
assignments (source, destination, count) and the byte moves are collected and compared with what the library function copies."""
from .shadow import *
MIN_OBLIGATIONS = 60
COPY = re.compile(r"^(__sanitizer::internal_)?(memcpy|memmove)\b"); FILL = re.compile(r"^(__sanitizer::internal_)?memset\b")
def check(rep):
    rep.assumptions += ["a region given to a wrapper lies inside application memory", "source and destination of memcpy, strcpy, strncpy, strcat do not overlap (undefined in C)",
                        "the usable size of an allocation is what realloc preserves of it", "origin tracking is off", "lengths do not wrap around 64 bits"]
    rep.rule("labels", "every byte written gets the label of the byte it was copied from, or of the fill value")
    rep.rule("only", "no other label is written")
    rep.rule("bytes", "the wrapper moves the bytes the function moves")
    rep.rule("overlap", "where source and destination may overlap, labels and bytes are moved as a block")
    rep.rule("bounded", "no byte the function itself would not read is read")
    rep.rule("result", "the function's own result is returned, its label is the destination's (or none for fresh memory)")
    for name, spec in SPECS.items():
        for kind, get in (("runtime", wrapper), ("sanitizer", custom_wrapper)):
            A = get(name)
            if A is None: continue
            rep.count("wrappers"); rep.count("paths", len(A.paths)); SEEN.setdefault(name, []).append(kind)
            for p in A.paths:
                if any(base(e) in ("strcpy", "strcat", "memcpy", "memmove", "memset") and e.res is not None and p.facts.holds("eq", e.res, const(0, 64)) is True for e in p.calls()): continue      # they return their destination
                if p.end == "ret": one(rep, A, p, name, spec, kind)
                elif p.end == "noreturn": rep.ob("labels", f"__dfsw_{name} ({kind})", any(re.search(r"__throw_|bad_alloc|bad_array", e.dname or "") for e in p.calls()), f"does not return ({conds(p)[:200]})", where(p))
    for name in SPECS:
        if name not in SEEN: raise AnalysisBroken(f"no wrapper __dfsw_{name}")
SEEN = {}
class Ctx:
    def __init__(s, A, p, name):
        s.A, s.p, s.F, s.name = A, p, p.facts, name
        s.n = (len(A.F.args) - 1) // 2; s.raw = {}; s.sub = {}; cur = {}; s.names = {}
        for e in p.calls():
            c = e.callee or ""; s.names.setdefault(base(e), []).append(e)
            if base(e) == "strlen":
                x = e.args[0]; v = cur.get(x, atom(("strlen", x), 64)); s.sub[e.res.single()] = v
                if v.single() and v.single()[0] == "strlen": s.raw.setdefault(v.single(), e.res)
            elif base(e) == "strnlen":
                if p.facts.holds("ult", e.res, e.args[1]): s.sub[e.res.single()] = atom(("strlen", e.args[0]), 64); s.raw.setdefault(("strlen", e.args[0]), e.res)
            elif base(e) == "strcpy": cur[e.args[0]] = s.canon(cur.get(e.args[1], atom(("strlen", e.args[1]), 64)))
            elif base(e) == "strcat": cur[e.args[0]] = add(cur.get(e.args[0], atom(("strlen", e.args[0]), 64)), cur.get(e.args[1], atom(("strlen", e.args[1]), 64)))
    def canon(s, t):
        from engine.terms import subst
        return subst(t, lambda a: s.sub.get(a)) if isinstance(t, Lin) else t
    def back(s, t):
        from engine.terms import subst
        return subst(t, lambda a: s.raw.get(a))
    def eq(s, a, b):
        return s.canon(a) == s.canon(b) or s.F.holds("eq", s.back(a), s.back(b)) is True
    def zero(s, a): return s.eq(a, const(0, a.w))
    def arg(s, i): return atom(("arg", i), s.A._width(s.A.F.args[i].ty))
    def call(s, n): r = s.names.get(n, []); return r[0] if len(r) == 1 else None
    def null(s, t): return s.F.holds("eq", t, const(0, 64)) is True
    def live(s, t): return s.F.holds("ne", t, const(0, 64)) is True
def base(e):
    d = (e.dname or e.callee or "").split("(")[0].split("::")[-1]
    return d[9:] if d.startswith("internal_") else d
def slen(x): return atom(("strlen", x), 64)
def plus(a, k): return Lin(a.w, a.c + k, a.t)
# ------------------------------------------------------------------------------------------ what each function copies
# spec(C) -> (moves, result, label): moves: ("copy", dest, src, count) | ("fill", label term, dest, count, byte)
def s_memcpy(C): return [("copy", C.arg(0), C.arg(1), C.arg(2))], C.arg(0), C.arg(3)
def s_memset(C): return [("fill", C.arg(4), C.arg(0), C.arg(2), C.arg(1))], C.arg(0), C.arg(3)
def s_strcpy(C): return [("copy", C.arg(0), C.arg(1), plus(slen(C.arg(1)), 1))], C.arg(0), C.arg(2)
def s_strcat(C): return [("copy", add(C.arg(0), slen(C.arg(0))), C.arg(1), plus(slen(C.arg(1)), 1))], C.arg(0), C.arg(2)
def s_strncpy(C):
    L = C.raw.get(("strlen", C.arg(1))); n = C.arg(2)
    if L is not None and C.F.holds("ult", L, n) is True:
        l = slen(C.arg(1)); return [("copy", C.arg(0), C.arg(1), plus(l, 1)), ("fill", const(0, 32), plus(add(C.arg(0), l), 1), plus(sub(n, l), -1), const(0, 32))], C.arg(0), C.arg(3)
    full = any(base(e) in ("strlen", "strnlen") and e.args[0] == C.arg(1) and C.F.holds("uge", e.res, n) is True for e in C.p.calls())
    return ([("copy", C.arg(0), C.arg(1), n)] if full else None), C.arg(0), C.arg(3)
def s_strdup(C):
    m = C.call("strdup") or C.call("malloc")
    if m is None: return None, C.arg(0), const(0, 32)
    if base(m) == "malloc" and not C.eq(m.args[0], plus(slen(C.arg(0)), 1)): return None, m.res, const(0, 32)
    if C.null(m.res): return [], m.res, const(0, 32)
    if not C.live(m.res): return None, m.res, const(0, 32)
    return [("copy", m.res, C.arg(0), plus(slen(C.arg(0)), 1))], m.res, const(0, 32)
def s_calloc(C):
    m = C.call("calloc")
    if m is None or m.args[:2] != (C.arg(0), C.arg(1)) and list(m.args[:2]) != [C.arg(0), C.arg(1)]: return None, C.arg(0), const(0, 32)
    if C.null(m.res): return [], m.res, const(0, 32)
    if not C.live(m.res): return None, m.res, const(0, 32)
    return [("fill", const(0, 32), m.res, C.A._binop("mul", 64, C.arg(0), C.arg(1)), const(0, 32))], m.res, const(0, 32)
def s_malloc(C):
    m = C.call("malloc"); return [] if m and m.args[0] == C.arg(0) else None, m.res if m else None, const(0, 32)
def s_realloc(C):
    m = C.call("realloc"); ptr, size = C.arg(0), C.arg(1)
    if m is None or m.args[0] != ptr or m.args[1] != size: return None, None, const(0, 32)
    r = m.res
    if C.null(r) or C.null(ptr) or C.eq(size, const(0, 64)): return [], r, const(0, 32)
    if C.eq(r, ptr): return [("maybe",)], r, const(0, 32)
    if not (C.live(r) and C.live(ptr)): return None, r, const(0, 32)
    us = [e.res for e in C.p.calls("malloc_usable_size") if e.args[0] == ptr and C.p.events.index(e) < C.p.events.index(m)]
    for u in us:
        if C.F.holds("uge", u, size) is True: return [("copy", r, ptr, size)], r, const(0, 32)
        if C.F.holds("ult", u, size) is True or C.F.holds("ule", u, size) is True: return [("copy", r, ptr, u)], r, const(0, 32)
    return None, r, const(0, 32)
SPECS = {"memcpy": s_memcpy, "memmove": s_memcpy, "memset": s_memset, "strcpy": s_strcpy, "strncpy": s_strncpy, "strdup": s_strdup, "strcat": s_strcat,
         "calloc": s_calloc, "malloc": s_malloc, "realloc": s_realloc}
LIBRARY = {"strcpy", "strcat", "calloc", "malloc", "realloc"}           # the library itself moves the bytes
def one(rep, A, p, name, spec, kind):
    site = f"__dfsw_{name} ({kind})"; C = Ctx(A, p, name); w = where(p); txt = f"(path: {conds(p)[:300]})"
    want, res, lab = spec(C)
    if not rep.ob("labels", site, want is not None, f"what has to be copied is not established {txt}", w): return
    ops = assigns(C); moves = bytemoves(C)
    if want == [("maybe",)]:
        m = C.call("realloc"); rep.ob("only", site, all(o[0] == "copy" and C.eq(o[1], o[2]) for o in ops), f"writes {ops} {txt}", w); want = None
    if want is not None:
        left = match(rep, C, site, "labels", want, ops, txt, w)
        rep.ob("only", site, not left, f"further labels are written: {[tuple(map(str, o)) for o in left]} {txt}"[:500], w)
        if name in LIBRARY and (C.names.get(name) or name not in ("strcpy", "strcat")):
            lib = C.names.get(name, [])
            rep.ob("bytes", site, len(lib) == 1 and all(lib[0].args[i] == C.arg(i) for i in range(C.n)) and not moves, f"calls {[str(e) for e in lib]}, further moves {moves}"[:400], w)
        elif name == "strdup" and C.call("strdup") is not None: rep.ob("bytes", site, C.call("strdup").args[0] == C.arg(0) and not moves, f"{moves}", w)
        elif len(C.names.get(name, [])) == 1 and not COPY.search(name + "(") and not FILL.search(name + "("): rep.ob("bytes", site, all(C.names[name][0].args[i] == C.arg(i) for i in range(C.n)) and not moves, "other arguments", w)
        else:
            left = match(rep, C, site, "bytes", want, moves, txt, w)
            rep.ob("bytes", site, not left, f"further bytes are written: {[tuple(map(str, o)) for o in left]} {txt}"[:500], w)
        if name == "memmove": rep.ob("overlap", site, all(o[4] == "memmove" for o in ops + moves if o[0] == "copy"), "moved by a copy that must not overlap", w)
    got = p.ret
    rep.ob("result", site, isinstance(got, Lin) and (res is not None and C.eq(got, res) or any(e.res == got and base(e) in (name, "memcpy", "memmove", "memset") and e.args[0] == C.arg(0) for e in p.calls())), f"returns {got} {txt}", w)
    slot = at(A, len(A.F.args) - 1); gl = next((e.val for e in reversed(p.events) if e.kind == "store" and e.addr == slot and e.size == 4), None)
    rep.ob("result", site, isinstance(gl, Lin) and (gl == lab), f"the label of the result is {gl} {txt}", w)
    if name == "strncpy":
        rep.ob("bounded", site, not any(base(e) == "strlen" and e.args[0] == C.arg(1) for e in p.calls()), "the source is read to its end although it need not be terminated within the first n bytes", w)
def match(rep, C, site, rule, want, ops, txt, w):
    left = list(ops)
    for q in want:
        n = q[3]
        if q[0] == "copy":
            hit = [o for o in left if o[0] == "copy" and C.eq(o[1], q[1]) and C.eq(o[2], q[2]) and counts(C, o[3], n)]
        else:
            hit = [o for o in left if o[0] == "fill" and C.eq(o[2], q[2]) and counts(C, o[3], n) and (o[1] == q[1] if rule == "labels" else C.A._trunc(8, o[4]) == C.A._trunc(8, q[4]))]
        if not hit and C.zero(n): continue
        rep.ob(rule, site, bool(hit), f"missing: {q[0]} to {q[1] if q[0] == 'copy' else q[2]}, {n} {'labels' if rule == 'labels' else 'bytes'}; found {[tuple(map(str, o)) for o in ops]} {txt}"[:700], w)
        if hit: left.remove(hit[0])
    return [o for o in left if not (isinstance(o[3], Lin) and C.zero(o[3]))]
def counts(C, got, n):
    if isinstance(got, tuple): return runs(C, got[1], n)
    return C.eq(got, n)
# ------------------------------------------------------------------------------------------ label assignments of a path
def scaled4(t):
    return Lin(64, t.sc // 4, tuple((a, c // 4) for a, c in t.t)) if t.sc % 4 == 0 and all(c % 4 == 0 for _, c in t.t) else None
def events_of(C):
    """(path, loop or None, event): straight-line events, and those of one iteration of every loop the path completes"""
    A, p = C.A, C.p; out = [(p, None, e) for e in p.events]
    for u in loops_done(A, p):
        for q in mine_of(C, u): out += [(q, u, e) for e in q.events if e.loops and e.loops[-1] == u]
    return out
def mine_of(C, u):
    """the iterations of loop u that come after the same prefix as this path"""
    mine = {e.seq for e in C.p.events}
    return [q for q in backs(C.A, u) if all(e.seq in mine for e in q.events if u not in e.loops)]
def loops_done(A, p):
    ks = {a[1] for c in p.facts.conds for t in c[1:3] if isinstance(t, Lin) for a in atoms_of(t) if a[0] == "K"}
    return [u for u in A.loopinfo if u in ks]
def assigns(C):
    out = []
    for q, u, e in events_of(C):
        cnt = None if u is None else ("loop", u)
        if e.kind == "call" and COPY.search(e.dname or e.callee or "") and is_shadow(e.args[0]):
            n = scaled4(e.args[2]); s = app(e.args[1])
            out.append(("copy", app(e.args[0]), s, n, base(e)) if n is not None and s is not None and cnt is None else ("?", str(e), None, const(1, 64), None))
        elif e.kind == "call" and FILL.search(e.dname or e.callee or "") and is_shadow(e.args[0]):
            n = scaled4(e.args[2]); out.append(("fill", const(0, 32), app(e.args[0]), n, const(0, 32)) if n is not None and e.args[1] == const(0, e.args[1].w) and cnt is None else ("?", str(e), None, const(1, 64), None))
        elif e.kind == "call" and (e.callee in ("dfsan_set_label", "__dfsan_set_label")):
            l, d, n = (e.args[0], e.args[-2], e.args[-1])
            out.append(labelled(C, q, u, e, l, d, n))
        elif e.kind == "call" and e.callee == "dfsan_add_label": out.append(("?", str(e), None, const(1, 64), None))
        elif e.kind == "store" and is_shadow(e.addr): out.append(labelled(C, q, u, e, e.val, app(e.addr), const(1, 64)) if e.size == 4 else ("?", str(e), None, const(1, 64), None))
    # several iterations of the same loop describe one assignment
    res = []
    for o in out:
        if o not in res: res.append(o)
    return res
def labelled(C, q, u, e, l, d, n):
    s = source(C, q, u, l) if n == const(1, 64) else None
    if s is not None:
        if u is None: return ("copy", d, s, n, "byte")
        K = atom(("K", u), 64); d0, s0 = sub(d, K), sub(s, K)
        if any(a == ("K", u) for t in (d0, s0) for a in atoms_of(t)): return ("?", str(e), None, const(1, 64), None)
        return ("copy", d0, s0, ("loop", u), "byte")
    if u is None: return ("fill", l, d, n, l)
    K = atom(("K", u), 64); d0 = sub(d, K)
    if n == const(1, 64) and not any(a == ("K", u) for a in atoms_of(d0)) and not any(a[0] in ("K", "iv") for a in atoms_of(l)): return ("fill", l, d0, ("loop", u), l)
    return ("?", str(e), None, const(1, 64), None)
def source(C, q, u, l, depth=0):
    """application address (in terms of the loop counter of u) whose label the term l is"""
    if depth > 3 or not isinstance(l, Lin): return None
    for x in q.calls("dfsan_read_label"):
        if x.res == l and x.args[1] == const(1, 64): return x.args[0]
    s = l.single()
    if not (s and s[0] == "ld" and s[2] == 4): return None
    if is_shadow(s[1]): return app(s[1])
    ad = s[1]
    for x in reversed(q.events):
        if x.kind == "store" and x.addr == ad and x.size == 4: return source(C, q, u, x.val, depth + 1)
    if u is not None and once(C, u):        # the loop runs once
        a0 = terms.subst(ad, lambda a: const(0, 64) if a == ("K", u) else None)
        for x in reversed(C.p.events):
            if x.kind == "store" and x.addr == a0 and x.size == 4:
                r = source(C, C.p, None, x.val, depth + 1); return add(r, atom(("K", u), 64)) if r is not None else None
    # a slot filled by an earlier loop
    for u2 in loops_done(C.A, C.p):
        if u2 == u: continue
        for b in mine_of(C, u2):
            st = [x for x in b.events if x.kind == "store" and x.size == 4 and x.loops and x.loops[-1] == u2]
            for x in st:
                K2 = ("K", u2); from_ = None
                for k in ([atom(("K", u), 64)] if u is not None else [const(0, 64)]):
                    if terms.subst(x.addr, lambda a: k if a == K2 else None) == ad:
                        r = source(C, b, u2, x.val, depth + 1)
                        if r is not None and (u is None or covers(C, u2, u)): return terms.subst(r, lambda a: k if a == K2 else None)
    return None
def once(C, u): return runs(C, u, const(1, 64))
def lengths(C, u):
    """terms the number of iterations of u is known to equal on this path"""
    K = atom(("K", u), 64); out = [K]
    for c in C.F.conds:
        if c[0] in ("eq", "ule", "uge") and c[1].w == 64:
            d = sub(c[1], c[2]); k = dict(d.t).get(("K", u))
            if k and all(x % k == 0 for _, x in d.t) and d.sc % k == 0:
                n = sub(K, Lin(64, d.sc // k, tuple((a, x // k) for a, x in d.t)))
                if c[0] == "eq" or C.F.holds("eq", K, n) is True: out.append(n)
    return out
def runs(C, u, n): return any(C.eq(x, n) for x in lengths(C, u))
def covers(C, u2, u):
    return C.F.holds("uge", atom(("K", u2), 64), atom(("K", u), 64)) is True or any(runs(C, u2, n) for n in lengths(C, u))
def bytemoves(C):
    out = []
    for q, u, e in events_of(C):
        if e.kind == "call" and COPY.search(e.dname or e.callee or "") and not is_shadow(e.args[0]): out.append(("copy", e.args[0], e.args[1], e.args[2] if u is None else None, base(e)))
        elif e.kind == "call" and FILL.search(e.dname or e.callee or "") and not is_shadow(e.args[0]): out.append(("fill", None, e.args[0], e.args[2], e.args[1]))
        elif e.kind == "store" and not is_shadow(e.addr) and e.size == 1:
            s = e.val.single() if isinstance(e.val, Lin) else None
            if s and s[0] == "ld" and s[2] == 1 and u is not None: out.append(("copy", sub(e.addr, atom(("K", u), 64)), sub(s[1], atom(("K", u), 64)), ("loop", u), "byte"))
    return out
