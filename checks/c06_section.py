"""Typestate (lock held / not held) and value-flow analysis of section memory: the reservation primitive, the section
constructor, size and offset, and every reservation made by every method of the tracing object."""
from .core import *
MIN_OBLIGATIONS = 60
def check(rep):
    M = module("api"); L = layout(M)
    rep.assumptions += ["pthread mutexes behave as documented", "addresses are below 2^63, so start + n does not wrap when n is not negative as a signed number"]
    rep.rule("under-lock", "the write position is read and written only while the section's lock is held")
    rep.rule("start", "a granted reservation starts at the previous write position and has the requested length, and the write position moves by exactly that")
    rep.rule("fits", "a reservation is granted only if it ends inside the section, for every requested length")
    rep.rule("refused", "a reservation is refused only if it does not fit; the write position stays and the lock is released")
    rep.rule("held", "the lock stays held while the writer uses its reservation, and is released afterwards")
    rep.rule("fixed", "start and extent of a section are set once, by its constructor")
    rep.rule("offset", "the offset of an address inside the section is its distance from the start; anything else stops the program")
    primitive(rep, M); ctor(rep, M); offset(rep, M)
    for n in SECTIONS: size(rep, M, n)
    secs = [x for x in L.values() if isinstance(x, Sec)]
    pos = {x.pos: x for x in secs}; cells = {x.begin: x for x in secs} | {Lin(64, x.begin.c + 8, x.begin.t): x for x in secs}
    for d, A in method(M, r"\w+\(", watch=lambda a: a in pos):
        nm = re.match(r"taintdag::PolyTracker::(\w+)", d).group(1)
        if nm == "PolyTracker" or "~" in d: continue
        rep.count("methods"); rep.count("paths", len(A.paths))
        uses(rep, A, nm, pos, cells, L)
    # the operations kept as calls above, analysed on their own
    for fn, w in (("w_add_string", "w_size_StringTable"), ("w_mapping_idx", "w_size_Sources")):
        p0, b0, l0 = own(M, fn_flat(fn, w)); s = Sec(fn[2:], None, ptr(p0), ptr(b0), ptr(l0))
        F = module("flat"); A = analyze(F, fn, nonnull=(0,), watch=lambda a: a == s.pos, stable=lambda a: a in (s.begin, ptr(b0 + 8)))
        rep.count("methods"); rep.count("paths", len(A.paths))
        uses(rep, A, fn[2:], {s.pos: s}, {s.begin: s, ptr(b0 + 8): s}, {"s": s})
def fn_flat(fn, w): return w
def ptr(off): return Lin(64, off, ((("arg", 0), 1),))
def fits(p, start, n, end):
    """the path's conditions say start + n <= end without relying on a sum that may wrap"""
    guard = p.facts.holds("sge", n, const(0, 64)) is True or (n.const and n.sc >= 0) or nonneg(p, n)
    for c in p.facts.conds:
        if c[0] not in ("uge", "ule", "ugt", "ult") or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
        x, y = (c[1], c[2]) if c[0] in ("uge", "ugt") else (c[2], c[1])
        d = sub(sub(x, y), sub(sub(end, start), n))
        if not d.const or d.sc > (1 if c[0] in ("ugt", "ult") else 0): continue
        if not any(a in dict(start.t) for a, _ in y.t) and same(x, sub(end, start)): return True      # room >= n
        if guard: return True
    return False
def same(x, y): return sub(x, y).const
def nonneg(p, n):
    """a length built from values the analysis knows to be zero-extended"""
    if bits(n)[-1] == 0 or p.facts.holds("ult", n, const(1 << 62, 64)) is True: return True
    return 0 <= n.c < 1 << 40 and all(0 < k < 1 << 16 and (all(x == 0 for x in bits(atom(a, 64))[40:]) or p.facts.holds("ult", atom(a, 64), const(1 << 40, 64)) is True) for a, k in n.t)
def small(p, start, n, end):
    """the path's conditions say that it does not fit"""
    for c in p.facts.conds:
        if not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
        if c[0] == "slt" and sub(c[1], n) == const(0, 64) and c[2] == const(0, 64): return True
        if c[0] == "sgt" and sub(c[2], n) == const(0, 64) and c[1] in (const(0, 64), const(-1, 64)): return True
        if c[0] in ("ult", "ugt", "ule", "uge"):
            x, y = (c[1], c[2]) if c[0] in ("ult", "ule") else (c[2], c[1])
            # room < n, or end < start + n, or start + n wrapped below start
            d = sub(sub(x, y), sub(sub(end, start), n))
            if d.const and d.sc >= (0 if c[0] in ("ult", "ugt") else 1): return True
            if c[0] in ("ult", "ugt") and x == add(start, n) and y == start: return True
    return False
def primitive(rep, M):
    po, bo, lo = own(M, "w_size"); pos, beg, ext, lock = ptr(po), ptr(bo), ptr(bo + 8), ptr(lo)
    A = analyze(M, "w_write", watch=lambda a: a == pos, stable=lambda a: a in (beg, ext), nonnull=(0,))
    n = at(A, 1); kinds = set()
    for p in A.paths:
        w = where(p)
        if p.end == "noreturn": rep.ob("refused", "SectionBase::write", stopped(p) and not [e for e in p.events if e.kind == "store" and e.addr == pos], conds(p), w); continue
        locks(rep, p, "SectionBase::write", {pos: lock}, w)
        h = p.calls("w_holding"); r = p.calls("w_refused"); st = [e for e in p.events if e.kind == "store" and e.addr == pos]
        end = add(atom(("ld", beg, 8, 0), 64), atom(("ld", ext, 8, 0), 64))
        old = [e.val for e in p.events if e.kind == "load" and e.addr == pos]
        if not rep.ob("start", "SectionBase::write", len(h) + len(r) == 1 and old, "neither granted nor refused", w): continue
        old = old[0]
        if h:
            kinds.add("granted"); e = h[0]; i = p.events.index(e)
            rep.ob("start", "SectionBase::write", e.args[0] == old and e.args[1] == n, f"granted {e.args[0]}, {e.args[1]} bytes; write position was {old}, {n} bytes requested", w)
            rep.ob("start", "SectionBase::write", len(st) == 1 and st[0].val == add(old, n), f"write position becomes {[str(x.val) for x in st]}", w)
            rep.ob("fits", "SectionBase::write", fits(p, old, n, end), f"granted without room (path: {conds(p)})", w)
            rep.ob("held", "SectionBase::write", held(p, i, lock) == 1 and held(p, len(p.events), lock) == 0, "the lock is not held while the reservation is in use, or not released afterwards", w)
        else:
            kinds.add("refused")
            rep.ob("refused", "SectionBase::write", not st and held(p, p.events.index(r[0]), lock) == 0, "a refused reservation moves the write position or keeps the lock", w)
            rep.ob("refused", "SectionBase::write", small(p, old, n, end), f"refused although it may fit (path: {conds(p)})", w)
    rep.ob("start", "SectionBase::write", kinds == {"granted", "refused"}, f"outcomes found: {sorted(kinds)}")
def ctor(rep, M):
    po, bo, lo = own(M, "w_size"); A = analyze(M, "w_section", nonnull=(0,))
    for p in A.paths:
        if p.end != "ret": continue
        g = lambda o: A.load(p, ptr(o), 8)
        rep.ob("start", "SectionBase constructor", g(po) == at(A, 1) and g(bo) == at(A, 1) and g(bo + 8) == at(A, 2), f"start {g(bo)}, extent {g(bo + 8)}, write position {g(po)}", where(p))
def offset(rep, M):
    po, bo, lo = own(M, "w_size"); A = analyze(M, "w_offset", nonnull=(0,)); b = atom(("ld", ptr(bo), 8, 0), 64); e = add(b, atom(("ld", ptr(bo + 8), 8, 0), 64)); x = at(A, 1)
    for p in A.paths:
        w = where(p)
        if p.end == "noreturn": rep.ob("offset", "SectionBase::offset", stopped(p) and not (p.facts.holds("uge", x, b) is True and p.facts.holds("ult", x, e) is True), conds(p), w); continue
        rep.ob("offset", "SectionBase::offset", p.ret == sub(x, b) and p.facts.holds("uge", x, b) is True and p.facts.holds("ult", x, e) is True, f"returns {p.ret} when {conds(p)}", w)
def size(rep, M, n):
    po, bo, lo = own(M, f"w_size_{n}"); pos = ptr(po); A = analyze(M, f"w_size_{n}", watch=lambda a: a == pos, nonnull=(0,))
    for p in A.paths:
        if p.end != "ret": continue
        locks(rep, p, f"{n}::size", {pos: ptr(lo)}, where(p))
        rep.ob("held", f"{n}::size", held(p, len(p.events), ptr(lo)) == 0, "returns with the lock held", where(p))
def locks(rep, p, site, pos, w):
    for i, e in enumerate(p.events):
        if e.kind in ("load", "store", "rmw") and e.addr in pos:
            lk = pos[e.addr]
            rep.ob("under-lock", site, held(p, i, lk if isinstance(lk, Lin) else lk.lock) == 1, f"{e.kind} of the write position without its lock", w)
def uses(rep, A, nm, pos, cells, L):
    for p in A.paths:
        w = where(p)
        locks(rep, p, nm, pos, w)
        for e in p.events:
            if e.kind == "store": rep.ob("fixed", nm, e.addr not in cells, f"writes the bounds of section {cells.get(e.addr)}", w)
        for r in reservations(A, p, L):
            beg = atom(("ld", r.sec.begin, 8, 0), 64); end = add(beg, atom(("ld", Lin(64, r.sec.begin.c + 8, r.sec.begin.t), 8, 0), 64))
            rep.count("reservations")
            rep.ob("fits", nm, fits(p, r.start, r.n, end), f"{r.sec}: {r.n} bytes granted without room (path: {conds(p)})", w)
            for e in r.writes:
                i = p.events.index(e)
                rep.ob("held", nm, held(p, i, r.sec.lock) == 1, f"{r.sec}: the reserved memory is written without the lock", w)
        if p.end == "ret":
            for x in pos.values(): rep.ob("held", nm, held(p, len(p.events), x.lock) == 0, f"{x}: returns with the section lock held", w)
