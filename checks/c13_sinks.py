"""Path-sensitive value-flow analysis of both taint_sink methods (everything but descriptor lookup inlined) with the byte
loop summarised by one arbitrary iteration: a record is reserved and filled exactly when the byte is tainted, with that
byte's label, position and descriptor entry; plus the descriptor lookup itself: a backward scan from the newest entry."""
from .recorders import *
MIN_OBLIGATIONS = 30
def check(rep):
    M = module("api"); L = layout(M)
    rep.assumptions += ["byte counts and offsets do not wrap around 64 bits", "pthread mutexes behave as documented"]
    rep.rule("lookup", "the descriptor entry is looked up for the descriptor that was passed")
    rep.rule("untracked", "nothing is recorded for an untracked descriptor")
    rep.rule("every-byte", "a returning path for a tracked descriptor has visited every byte")
    rep.rule("iff-tainted", "an iteration stores one sink record exactly when the byte's label is not zero")
    rep.rule("record", "the record holds the byte's position, its label and the descriptor's entry")
    rep.rule("stops", "a path that does not return reports an error")
    rep.rule("latest", "the lookup scans from the newest entry back and returns the first one with this descriptor")
    fields = record_layout(M, rep)
    for d, A in method(M, r"taint_sink\("):
        P = params(d, A)
        bymem = "void const*" in d; site = "taint_sink(" + ("memory" if bymem else "label") + ")"
        fd = at(A, P[0][1]); off = P[1][1]; what = at(A, P[2][1]); n = at(A, P[3][1])
        rep.count("methods"); rep.count("paths", len(A.paths))
        def act(p, u):
            """per-iteration label reads (memory variant) or records (label variant)"""
            ev = in_iter(p, u)
            if bymem: return [e for e in ev if e.kind == "call" and e.callee == "dfsan_read_label"]
            return [r for r in reservations(A, p, L) if r.sec.name == "TaintSink" and r.ev in ev]
        U = loops_with(A, act)
        for p in A.paths:
            w = where(p); rs = [r for r in reservations(A, p, L)]
            if p.end == "noreturn": rep.ob("stops", site, stopped(p), conds(p), w); continue
            lk = lookups(p)
            if p.end == "ret" and not rs and not offset_cells(p, L):
                if p.facts.holds("eq", n, const(0, n.w)) is True: continue
                if not lk and not bymem and p.facts.holds("eq", what, const(0, what.w)) is True and bitflag(p, ("arg", off + 1), 0) is True: continue
            rep.ob("record", site, all(r.sec.name == "TaintSink" for r in rs), f"writes to sections {[r.sec.name for r in rs]}", w)
            if not rep.ob("lookup", site, len(lk) == 1 and lk[0].args[0] == L["Sources"].at and lk[0].args[1] == fd, f"descriptor lookups: {[str(x.args) for x in lk]}", w): continue
            idx = lk[0].res.single(); tracked = bitflag(p, idx, 8)
            if tracked is False:
                rep.ob("untracked", site, not rs, "a record is stored for an untracked descriptor", w); continue
            if not rep.ob("lookup", site, tracked is True, "whether the descriptor is tracked is not decided", w): continue
            start, why = start_offset(A, p, L, "write_offsets", idx, off, n)
            if not rep.ob("record", site, start is not None, why, w): continue
            if p.end == "ret":
                untainted = (not bymem and p.facts.holds("eq", what, const(0, what.w)) is True) or (bymem and any(e.callee == "dfsan_read_label" and e.args[0] == what and e.args[1] == n and p.facts.holds("eq", e.res, const(0, 32)) is True for e in p.calls()))
                rep.ob("every-byte", site, untainted or ran_to(p, U, n, act), f"returns although not every byte need have been visited (path: {conds(p)})", w)
            for u in U:
                ev = in_iter(p, u)
                if not ev and p.end != ("back", u): continue
                if isinstance(p.end, tuple) and p.end != ("back", u): continue
                mine = [r for r in rs if r.ev in ev]
                if p.end == "ret" and not act(p, u): continue
                if bymem:
                    rd = act(p, u)
                    if not rep.ob("iff-tainted", site, len(rd) == 1 and rd[0].args[1] == const(1, 64), f"label reads in one iteration: {[str(x) for x in rd]}", w): continue
                    i = index_of(sub(rd[0].args[0], what), u, n); lab = rd[0].res
                    if not rep.ob("every-byte", site, i is not None, f"the label read is that of {rd[0].args[0]}", w): continue
                    z = p.facts.holds("eq", lab, const(0, lab.w))
                    rep.ob("iff-tainted", site, (z is False and len(mine) == 1) or (z is True and not mine), f"{len(mine)} records in an iteration where the label is {'not ' if z is False else 'possibly ' if z is None else ''}zero", w)
                else:
                    lab = what; i = None
                    z = p.facts.holds("eq", lab, const(0, lab.w))
                    rep.ob("iff-tainted", site, z is False and len(mine) == 1, f"{len(mine)} records in one iteration; label zero: {z}", w)
                for r in mine[:1]:
                    got = {k: r.field(*v) for k, v in fields.items()}
                    if i is None and isinstance(got["offset"], Lin): i = index_of(sub(got["offset"], start), u, n)
                    rep.ob("record", site, r.n == const(fields["size"], 64) if isinstance(fields.get("size"), int) else True, f"reserves {r.n} bytes", w)
                    rep.ob("record", site, i is not None and got["offset"] == add(start, i), f"position stored is {got['offset']}", w)
                    rep.ob("record", site, got["label"] == lab, f"label stored is {got['label']}, the byte's label is {lab}", w)
                    rep.ob("record", site, got["sink"] is not None and is_field(got["sink"], idx, 0, 8), f"entry stored is {got['sink']}", w)
    lookup(rep, module("flat"))
def record_layout(M, rep):
    A = analyze(M, "w_sink_entry"); p = [p for p in A.paths if p.end == "ret"][0]
    f = {}
    for e in p.events:
        if e.kind == "store" and isinstance(e.val, Lin) and e.val.single() in (("arg", 1), ("arg", 2), ("arg", 3)):
            f[["offset", "label", "sink"][e.val.single()[1] - 1]] = (e.addr.c, e.size)
    if set(f) != {"offset", "label", "sink"}: raise AnalysisBroken("sink record fields not found")
    return f
def lookup(rep, M):
    site = "Sources::mapping_idx"
    A = analyze(M, "w_mapping_idx", nonnull=(0,), stable=fixed1(M, "w_size_Sources")); rep.count("methods"); rep.count("paths", len(A.paths))
    pos, beg, lock = own(M, "w_size_Sources")
    E = analyze(M, "w_source_entry"); q = [p for p in E.paths if p.end == "ret"][0]
    fdo = [e.addr.c for e in q.events if e.kind == "store" and isinstance(e.val, Lin) and e.val.single() == ("arg", 2)]
    tot = [e for e in q.events if e.kind == "call" and e.callee == "w_sizeof"]
    sz = tot[0].args[0].c; fdo = fdo[0]
    fd = atom(("arg", 1), 32)
    base = atom(("ld", Lin(64, beg, ((("arg", 0), 1),)), 8, None), 64)
    fdcell = lambda t: [a for a in atoms_of(t) if a[0] == "ld" and a[2] == 4]
    backs = [p for p in A.paths if isinstance(p.end, tuple)]
    loops = {p.end[1] for p in backs}
    rep.ob("latest", site, len(loops) == 1, f"{len(loops)} scan loops")
    for p in A.paths:
        w = where(p)
        if p.end == "noreturn": rep.ob("stops", site, stopped(p), conds(p), w); continue
        # entries examined on this path: address of the descriptor field and verdict
        ex = []
        for c in p.facts.conds:
            if c[0] in ("eq", "ne") and isinstance(c[1], Lin) and isinstance(c[2], Lin):
                for x, y in ((c[1], c[2]), (c[2], c[1])):
                    a = x.single()
                    if a and a[0] == "ld" and a[2] == 4 and y == fd: ex.append((a[1], c[0] == "eq"))
        invalid = p.facts.holds("eq", fd, const(-1, 32)) is True
        if isinstance(p.end, tuple):
            u = p.end[1]
            ok = len(ex) == 1 and ex[0][1] is False
            if rep.ob("latest", site, ok, f"an iteration continues after examining {[(str(a), m) for a, m in ex]}", w):
                # entry examined in iteration K: newest first
                a = ex[0][0]; kk = dict(a.t).get(("K", u))
                rep.ob("latest", site, kk == -sz, f"the scan moves by {kk} bytes per step (entries are {sz} bytes, newest last)", w)
                first = Lin(64, a.c, tuple((x, k) for x, k in a.t if x != ("K", u)))
                rep.ob("latest", site, is_last_entry(first, fdo, sz, pos, beg), f"the scan starts at {first}", w)
            continue
        if isinstance(p.ret, Lin) and p.ret == const(0, 64):
            # not found: every entry was examined, or no descriptor
            u = next(iter(loops), None)
            full = u is not None and any(c[0] == "eq" and all_seen(c, u, sz, pos, beg) for c in p.facts.conds)
            rep.ob("latest", site, invalid or (full and not any(m for _, m in ex)), f"reports no entry on the path where {conds(p)}", w)
        else:
            hit = [a for a, m in ex if m]
            ok = len(hit) == 1
            if rep.ob("latest", site, ok, f"reports an entry although the descriptors compared are {[(str(a), m) for a, m in ex]}", w):
                rep.ob("latest", site, entry_index(A, p.ret, hit[0], fdo, sz, beg), f"reports index {p.ret} for the entry at {hit[0]}", w)
def all_seen(c, u, sz, pos, beg):
    """the condition says that the entry below which the scan continues is the first one"""
    if not (isinstance(c[1], Lin) and isinstance(c[2], Lin)): return False
    d = sub(c[1], c[2]); k = dict(d.t).get(("K", u))
    if abs(k or 0) == 1 and sz != 1: d = scale(d, sz); k *= sz       # counted in entries
    if abs(k or 0) != sz: return False
    if k < 0: d = scale(d, -1)
    rest = scale(Lin(64, d.c, tuple((a, x) for a, x in d.t if a != ("K", u))), -1)       # bytes scanned
    return is_last_entry(add(rest, atom(("ld", Lin(64, beg, ((("arg", 0), 1),)), 8, "any"), 64)), 0, sz, pos, beg, end=True)
def cell(t, off):
    a = t.single() if isinstance(t, Lin) else None
    return bool(a and a[0] == "ld" and a[1].t == ((("arg", 0), 1),) and a[1].c == off)
def is_last_entry(first, fdo, sz, pos, beg, end=False):
    """address of the descriptor field of the newest entry: start + size*(used/size) - size, or write position - size"""
    d = Lin(64, first.c - fdo + (0 if end else sz), first.t)          # end of the used entries
    if cell(d, pos): return True
    loads = [(a, k) for a, k in d.t if a[0] == "ld"]; ops = [(a, k) for a, k in d.t if a[0] == "op"]
    if d.c or len(loads) != 1 or len(ops) != 1 or not cell(atom(loads[0][0], 64), beg) or loads[0][1] != 1: return False
    o, k = ops[0]
    sh = o[4].c if o[1] == "lshr" and o[4].const else None
    if o[1] == "udiv" and o[4].const and o[4].c == sz and k == sz: pass
    elif sh is not None and (1 << sh) == sz and k == sz: pass
    else: return False
    used = o[3]
    return {(a[1].c, c) for a, c in used.t if a[0] == "ld"} == {(pos, 1), (beg, -1)} and used.c == 0
def lin8(t, out=None, k=1):
    """linear form modulo 256 with truncations expanded"""
    out = {} if out is None else out
    out[None] = out.get(None, 0) + k * t.c
    for a, c in t.t:
        if a[0] in ("trunc", "zext", "sext") and isinstance(a[2], Lin) and min(t.w, a[2].w) >= 8: lin8(a[2], out, k * c)
        else: out[a] = out.get(a, 0) + k * c
    return out
def entry_index(A, ret, hit, fdo, sz, beg):
    """ret = 0x100 | low byte of (entry - start) / size"""
    if isinstance(ret, Lin) and ret.c & ~0xff == 0x100:       # counted in entries: the same linear form modulo 256
        d = Lin(64, (hit.c - fdo) % (1 << 64), tuple((a, k) for a, k in hit.t if not cell(atom(a, 64), beg)))
        if len(d.t) < len(hit.t) and d.c % sz == 0 and all(k % sz == 0 for _, k in d.t):
            q = Lin(64, (d.sc // sz) % (1 << 64), tuple((a, k // sz) for a, k in d.t))
            strip = lambda x: {a: c % 256 for a, c in x.items() if c % 256}
            z = ret.t[0][0] if len(ret.t) == 1 and ret.t[0][1] == 1 else None
            if z and z[0] == "zext" and isinstance(z[2], Lin) and z[2].w == 8 and strip(lin8(z[2])) == strip(lin8(q)): return True
    for a in atoms_of(ret):
        if a[0] == "op" and a[1] in ("lshr", "udiv", "ashr", "sdiv") and a[4].const:
            q = (1 << a[4].c) if "shr" in a[1] else a[4].c
            num = a[3]
            if q != sz: continue
            d = sub(Lin(64, hit.c - fdo, hit.t), num)
            if len(d.t) == 1 and d.c == 0 and cell(d, beg):
                b = bits(ret); src = bits(atom(a, 64))
                if b[:8] == src[:8] and b[8] == 1: return True
    return False
