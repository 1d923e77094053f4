"""Path-sensitive value-flow analysis of every method that creates source labels, with both byte loops summarised by one
arbitrary iteration: label i stores the encoding of (source, offset+i), byte i of the buffer gets label i, the label
index receives exactly that range, and an untracked descriptor creates nothing."""
from .recorders import *
MIN_OBLIGATIONS = 60
def taint_fields(M):
    A = analyze(M, "w_src_taint"); f = {}
    for p in A.paths:
        for e in p.events:
            if e.kind != "store" or not isinstance(e.val, Lin): continue
            k = e.val.single()
            if k == ("arg", 1): f["index"] = (e.addr.c, e.size)
            elif k == ("arg", 2): f["offset"] = (e.addr.c, e.size)
            elif e.val.const:
                f.setdefault("const", {}).setdefault((e.addr.c, e.size), set()).add(e.val.c)
    kind = [(k, v) for k, v in f["const"].items() if len(v) == 1]; mark = [k for k, v in f["const"].items() if len(v) == 2]
    if not {"index", "offset"} <= set(f) or len(kind) != 1 or len(mark) != 1: raise AnalysisBroken("layout of a source taint not found")
    return f["index"], f["offset"], mark[0], (kind[0][0], next(iter(kind[0][1])))
def low32(A, t, first):
    b, f = bits(t), bits(first)
    return b[:32] == f[:32] and all(x == 0 for x in b[32:]) and None not in b[:32]
def same32(t, u):
    from .taintmem import low32 as low
    strip = lambda d: {a: c for a, c in d.items() if c}
    return isinstance(t, Lin) and strip(low(t)) == strip(low(u))
def check(rep):
    M = module("api"); L = layout(M)
    rep.assumptions += ["byte counts, labels and offsets do not wrap around", "pthread mutexes behave as documented"]
    rep.rule("lookup", "the source is the entry of the descriptor that was passed, or the entry just added")
    rep.rule("untracked", "an untracked descriptor creates nothing and reports that")
    rep.rule("labels", "exactly n consecutive labels are reserved, and a returning path has stored every one of them")
    rep.rule("value", "label i stores the encoding of this source at offset + i, unmarked")
    rep.rule("index", "exactly the new labels are added to the index of input labels")
    rep.rule("shadow", "byte i of the buffer, and no other byte, gets label i")
    rep.rule("returned", "the returned range is the range created")
    rep.rule("entry", "a named memory source is added under exactly that name and without a descriptor")
    rep.rule("stops", "a path that does not return reports an error")
    tf = taint_fields(M)
    for d, A in method(M, r"(source_taint|create_taint_source|create_source_taint)\("):
        P = params(d, A); nm = re.match(r"taintdag::PolyTracker::(\w+)", d).group(1)
        types = [t for t, _ in P]
        if nm == "source_taint":
            buf = at(A, P[1][1]) if "void" in types[1] else None
            off = P[-2][1]; n = at(A, P[-1][1]); fd = at(A, P[0][1])
        elif nm == "create_taint_source": buf, n, fd, off = at(A, P[1][1]), at(A, P[1][1] + 1), None, None
        else: buf, n, fd, off = at(A, P[1][1]), at(A, P[1][1] + 1), None, P[2][1]
        site = nm + ("(memory)" if nm == "source_taint" and buf is not None else "(value)" if nm == "source_taint" else "")
        one(rep, A, L, tf, nm, site, buf, off, n, fd, P)
def one(rep, A, L, tf, nm, site, buf, off, n, fd, P):
    rep.count("methods"); rep.count("paths", len(A.paths))
    Z = const(0, 64)
    def stores(p, u): return [e for e in in_iter(p, u) if e.kind == "store" and any(e in r.writes for r in reservations(A, p, L) if r.sec.name == "Labels")]
    def shadows(p, u): return [e for e in in_iter(p, u) if e.kind == "call" and e.callee == "dfsan_set_label"]
    def bitsets(p, u): return [e for e in calls(p, BITMAP) if u in (e.loops or ()) and "::set(" in e.dname]
    US, UH, UB = loops_with(A, stores), loops_with(A, shadows), loops_with(A, bitsets)
    for p in A.paths:
        w = where(p)
        if p.end == "noreturn": rep.ob("stops", site, stopped(p), conds(p), w); continue
        rs = reservations(A, p, L); lab = [r for r in rs if r.sec.name == "Labels"]
        # ---- the source
        if nm == "source_taint":
            lk = lookups(p)
            if not rep.ob("lookup", site, len(lk) == 1 and lk[0].args[0] == L["Sources"].at and lk[0].args[1] == fd, f"descriptor lookups: {[str(x.args) for x in lk]}", w): continue
            a = lk[0].res.single(); tracked = bitflag(p, a, 8)
            if tracked is False:
                rep.ob("untracked", site, not rs and not calls(p, BITMAP) and not p.calls("dfsan_set_label"), "labels are created for an untracked descriptor", w)
                if p.end == "ret": rep.ob("untracked", site, engaged(A, p) is False, f"reports {p.ret} for an untracked descriptor", w)
                continue
            if not rep.ob("lookup", site, tracked is True, "whether the descriptor is tracked is not decided", w): continue
            issrc = lambda t: is_field(t, a, 0, 8)
            start, why = start_offset(A, p, L, "read_offsets", a, off, n)
            if not rep.ob("value", site, start is not None, why, w): continue
        elif nm == "create_taint_source":
            src = [r for r in rs if r.sec.name == "Sources"]
            if not rep.ob("lookup", site, len(src) == 1, f"{len(src)} source entries added", w): continue
            want = entry_no(A, p, src[0], L["Sources"])
            st = calls(p, STRINGS); nm0 = P[0][1]
            ok = len(st) == 1 and st[0].args[1:3] == [at(A, nm0), at(A, nm0 + 1)] and src[0].field(0, 4) is not None and is_field(src[0].field(0, 4), st[0].res.single(), 0, 32)
            rep.ob("entry", site, ok, f"the name stored is {src[0].field(0, 4)}, made from {[str(x.args[1:3]) for x in st]}", w)
            fd0 = src[0].field(4, 4)
            rep.ob("entry", site, fd0 is not None and fd0.const and fd0.c & 0xffffffff == 0xffffffff, f"the descriptor stored for a source without one is {fd0}", w)
            issrc = lambda t: t is not None and bits(t)[:8] == bits(want)[:8] and None not in bits(want)[:8]
            start = const(0, 64)
        else:
            issrc = lambda t: t == at(A, P[0][1]); start = at(A, off)
        # ---- the reservation
        if not rep.ob("labels", site, len(lab) == 1 and lab[0].n == scale(n, 8), f"label reservations: {[str(r.n) for r in lab]} bytes for {n} bytes", w): continue
        r = lab[0]
        first = entry_no(A, p, r, L["Labels"])
        if p.end == "ret":
            rep.ob("labels", site, ran_to(p, US, n, stores), f"returns although not every label need have been stored (path: {conds(p)})", w)
            if buf is not None: rep.ob("shadow", site, ran_to(p, UH, n, shadows) or whole(p, buf, n), f"returns although not every byte need have its label (path: {conds(p)})", w)
            else: rep.ob("shadow", site, not p.calls("dfsan_set_label"), "sets the label of memory that was not passed", w)
        # ---- one label
        for u in US:
            if isinstance(p.end, tuple) and p.end != ("back", u): continue
            st = stores(p, u)
            if not st and p.end != ("back", u): continue
            if not rep.ob("value", site, len(st) == 1 and st[0].size == 8, f"{len(st)} stores per label", w): continue
            e = st[0]; i = index_of(sub(e.addr, r.start), u, n, 8)
            if not rep.ob("labels", site, i is not None, f"iteration K stores at {e.addr} (reserved from {r.start})", w): continue
            enc = [c for c in p.calls() if c.res is not None and c.res == e.val and "taintdag::encode(" in (c.dname or "")]
            if not rep.ob("value", site, len(enc) == 1, f"the value stored is {e.val}", w): continue
            c = enc[0]; o = c.args[0]; get = lambda k: mem_at(A, p, c, Lin(64, o.c + k[0], o.t), k[1])
            rep.ob("value", site, issrc(get(tf[0])), f"source stored is {get(tf[0])}", w)
            rep.ob("value", site, get(tf[1]) == add(start, i), f"offset stored for byte {i} is {get(tf[1])}", w)
            rep.ob("value", site, get(tf[2]) == const(0, 8), f"control-flow mark of a new label is {get(tf[2])}", w)
            rep.ob("value", site, get(tf[3][0]) == const(tf[3][1], 8 * tf[3][0][1]), f"kind of taint stored is {get(tf[3][0])}", w)
        # ---- index of input labels
        bm = calls(p, BITMAP)
        one_by_one = [e for e in bm if e.loops and any(u in UB for u in e.loops)]
        if one_by_one or (UB and p.end == "ret"):      # bit by bit, in a loop over the same labels
            for e in one_by_one:
                u = [u for u in e.loops if u in UB][0]
                ok = "::set(" in e.dname and e.args[0] == L["SourceIndexBits"] and any(same32(e.args[1], add(first, i)) for i in (K(u), sub(sub(n, const(1, 64)), K(u))))
                rep.ob("index", site, ok, f"iteration K of the label index sets bit {e.args[1]}; new labels start at {first}", w)
            if p.end == "ret": rep.ob("index", site, ran_to(p, UB, n, bitsets) and len(bm) == len(one_by_one), f"returns although not every new label need be in the label index (path: {conds(p)})", w)
        elif p.end == "ret" or any(e.loops for e in bm):
            ok = len(bm) == 1 and not bm[0].loops and "::set_range(" in bm[0].dname and bm[0].args[0] == L["SourceIndexBits"] and low32(A, bm[0].args[1], first) and bm[0].args[2] == n
            rep.ob("index", site, ok, f"label index updates: {[str(x.args[1:]) for x in bm]}; new labels start at {first}, {n} of them", w)
        # ---- shadow
        for u in UH:
            if isinstance(p.end, tuple) and p.end != ("back", u): continue
            sh = shadows(p, u)
            if not sh and p.end != ("back", u): continue
            if not rep.ob("shadow", site, len(sh) == 1 and sh[0].args[2] == const(1, 64), f"{[str(x.args) for x in sh]}", w): continue
            e = sh[0]; i = index_of(sub(e.args[1], buf), u, n) if buf is not None else None
            if not rep.ob("shadow", site, i is not None, f"iteration K labels the byte at {e.args[1]}", w): continue
            got = sub(e.args[0], Lin(32, i.c, i.t)) if e.args[0].w == 32 else None
            b, f = (bits(got), bits(first)) if got is not None else ([None], [0])
            rep.ob("shadow", site, got is not None and b[:32] == f[:32] and None not in b, f"byte {i} gets label {e.args[0]}, the first label is {first}", w)
        rep.ob("shadow", site, all(any(u in (e.loops or ()) for u in UH) or whole_ev(e, buf, n) for e in p.calls("dfsan_set_label")), "sets labels outside the byte loop", w)
        if p.end == "ret":
            v = rng(A, p)
            ok = v is not None and isinstance(v, Lin)
            if ok:
                rest = sub(v, scale(sub(add(first, n), const(1, 64)), 1 << 32))
                ok = low32(A, rest, first) and (nm == "create_source_taint" or engaged(A, p) is not False)
            rep.ob("returned", site, ok, f"returns {p.ret}", w)
def whole(p, buf, n): return False
def whole_ev(e, buf, n): return False
def entry_no(A, p, r, sec):
    """index of a reserved entry: (start - section start) / entry size"""
    b = atom(("ld", sec.begin, 8, 0), 64)
    size = {"Labels": 3, "Sources": 4, "Functions": 2}[sec.name]
    return A._binop("lshr", 64, sub(r.start, b), const(size, 64))
def rng(A, p):
    if isinstance(p.ret, Lin): return p.ret
    from engine.absint import AggV
    return p.ret.d.get((0,)) if isinstance(p.ret, AggV) else None
def engaged(A, p):
    from engine.absint import AggV
    if isinstance(p.ret, AggV):
        t = p.ret.d.get((1,))
        if isinstance(t, Lin) and t.const: return bool(t.c & 1)
        if isinstance(t, Lin):
            b = bits(t)[0]
            if isinstance(b, tuple): return bitflag(p, b[0], b[1])
    return None
