"""Value-flow analysis of the trace file's constructor (offsets, extents and header contents are evaluated to numbers), of its
destructor (which size is written into which header), and of every orderly way a program ends (the destructor runs once, on
every path, before the program is gone)."""
from . import core, life, tracefile as T, wit
from .rt import *
MIN_OBLIGATIONS = 120
O_RDWR, O_CREAT, O_TRUNC, MAP_SHARED, PROT_RW = 2, 0o100, 0o1000, 1, 3
SEC = ["Sources", "Labels", "StringTable", "TaintSink", "SourceIndexBits", "Functions", "Events", "ControlFlowLog"]
def check(rep):
    rep.assumptions += ["mmap returns page-aligned memory", "the C library runs atexit handlers on exit and on return from main", "pthread mutexes behave as documented"]
    rep.rule("file", "the file is created, sized and mapped shared and writable, all to one size, or the program stops")
    rep.rule("place", "each section lies, aligned, inside the file, apart from the header and every other section")
    rep.rule("header", "the header tells each section's tag, alignment and true offset, and the number of sections")
    rep.rule("fresh", "a section starts out empty and its object covers exactly the range the header tells")
    rep.rule("size", "before the mapping goes away every header receives the number of bytes its own section uses")
    rep.rule("unmap", "the whole mapping is released and the file closed")
    rep.rule("keep", "no recording operation touches the header or the mapping")
    rep.rule("exit", "every orderly end of the program completes the trace exactly once, before the process is gone")
    M = core.module("flat"); L = core.layout(M)
    secs = []
    for n in SEC:
        x = L[n]; at_ = x.at if isinstance(x, core.Sec) else x
        secs.append((n, T.const_of(M, f"w_tag_{n}"), T.const_of(M, f"w_align_{n}"), T.const_of(M, f"w_alloc_{n}"), begin_cell(M, n, x)))
    def used(n):
        """the size term size() returns for this section, over the tracing object"""
        A = analyze(M, f"w_size_{n}"); x = L[n]; a = x.at if isinstance(x, core.Sec) else x
        return [(A, p, a) for p in A.paths if p.end == "ret"]
    ctor, dtor = T.construct(M), T.destroy(M); rep.count("functions", 2)
    obj = file_rules(rep, M, "trace file", ctor, secs, T.const_of(M, "w_section_count"), True)
    if obj is not None: end_rules(rep, M, "trace file", dtor, secs, obj, lambda n: sizes(M, L, n))
    if obj is not None: keep(rep, M, dtor)
    # a section list with awkward sizes and alignments
    W = wit.load("layout.cpp", boundaries=[STDHEAVY])
    odd = []
    for n, (t, al, sz) in {"A": (21, 1, 3), "B": (22, 8, 40), "C": (23, 2, 5), "D": (24, 4, 12), "E": (25, 16, 16), "F": (26, 1, 1)}.items():
        r = analyze(W, f"w_odd_{n}").paths[0].ret; odd.append((n, t, al, sz, r))
    A = analyze(W, "w_odd", nonnull=(0,), private=(0,)); B = analyze(W, "w_odd_end", nonnull=(0,), private=(0,)); rep.count("functions", 2)
    obj = file_rules(rep, W, "mixed section list", A, odd, len(odd), False)
    cell = {n: r for n, _, _, _, r in odd}
    if obj is not None: end_rules(rep, W, "mixed section list", B, odd, obj, lambda n: (lambda t: t == atom(("ld", Lin(64, cell[n].c + 8, cell[n].t), 8, 0), 64) or (isinstance(t, Lin) and t.single() and t.single()[0] == "ld" and t.single()[1] == Lin(64, cell[n].c + 8, cell[n].t))))
    ends(rep)
def begin_cell(M, n, x):
    """the cell of the tracing object that holds where the section's data starts"""
    if isinstance(x, core.Sec): return x.begin
    A = analyze(M, "w_bit_is_set", nonnull=(0,))
    for p in A.paths:
        if p.end != "ret": continue
        for e in p.events:
            b = base_of(e.addr) if e.kind == "load" and isinstance(e.addr, Lin) else None
            if b and b[0] == "ld":
                d = sub(b[1], arg(0))
                if d.const: return Lin(64, x.c + d.c, x.t)
    raise AnalysisBroken("is_set() of the input-label bitmap reads no memory of its section")
def file_rules(rep, M, site, A, secs, total, real):
    out = None
    for p in A.paths:
        rep.count("paths")
        if p.end == "noreturn": rep.ob("file", site, core.stopped(p), f"the constructor gives up without an error: {where(p)}", where(p)); continue
        if p.end != "ret": continue
        op, tr, mm = p.calls("open") + p.calls("open64") + p.calls("openat"), p.calls("ftruncate") + p.calls("ftruncate64"), p.calls("mmap") + p.calls("mmap64")
        if not rep.ob("file", site, len(op) == 1 and len(tr) >= 1 and len(mm) == 1, f"the file is opened {len(op)}, sized {len(tr)} and mapped {len(mm)} times", where(p)): continue
        o, t, m = op[0], tr[-1], mm[0]; fl = o.args[1 if o.callee != "openat" else 2]
        rep.ob("file", site, isinstance(fl, Lin) and fl.const and fl.c & 3 == O_RDWR and fl.c & O_CREAT and fl.c & O_TRUNC, f"the file is opened with flags {fl}; an old trace must be replaced and the file be readable and writable", o.loc)
        for e, bad in ((o, -1), (t, -1), (m, -1)):
            r = e.res
            known = isinstance(r, Lin) and (p.facts.holds("ne", r, const(-1, r.w)) is True or p.facts.holds("sge", r, const(0, r.w)) is True or (e is t and p.facts.holds("eq", r, const(0, r.w)) is True))
            rep.ob("file", site, known, f"goes on although {e.callee} failed", e.loc)
        rep.ob("file", site, T_eq(t.args[0], o.res) and T_eq(m.args[4], o.res), "sizes or maps another descriptor than the opened one", m.loc)
        n = m.args[1]
        rep.ob("file", site, isinstance(n, Lin) and n.const and t.args[1] == n and m.args[5] == const(0, 64), f"the file is made {t.args[1]} bytes long and {n} bytes at {m.args[5]} are mapped", m.loc)
        rep.ob("file", site, m.args[3].const and m.args[3].c & MAP_SHARED and not m.args[3].c & 2 and m.args[2].const and m.args[2].c & PROT_RW == PROT_RW, "the mapping is not shared and writable: nothing reaches the file", m.loc)
        if not (isinstance(n, Lin) and n.const): continue
        size = n.c; base = m.res; im, ob = T.Image(M, p, base), T.Image(M, p, arg(0))
        rep.ob("header", site, im.get(0, 4) == 0x47414454, "the file does not begin with TDAG", A.F.dname)
        # header layout: number of sections at 6, one record of 24 bytes per section from 8 (C01 compares this with the reader)
        hdr = 8 + 24 * total
        rep.ob("header", site, im.get(6, 2) == total, f"the header tells {im.get(6, 2)} sections; there are {total}", A.F.dname)
        bytag = {}
        for i in range(total): bytag.setdefault(im.get(8 + 24 * i, 4), []).append(i)
        spans = [("header", 0, hdr)]; index = {}
        for name, tag, align, alloc, cell in secs:
            if not rep.ob("header", f"{site}: {name}", len(bytag.get(tag, [])) == 1, f"{len(bytag.get(tag, []))} headers carry its tag {tag}", A.F.dname): continue
            i = bytag[tag][0]; al, off = im.get(12 + 24 * i, 4), im.get(16 + 24 * i, 8)
            rep.ob("header", f"{site}: {name}", al == align, f"its header tells alignment {al}, it is {align}", A.F.dname)
            c = sub(cell, arg(0)).c
            st = [e for e in p.events if e.kind == "store" and e.addr == cell]
            v = sub(st[0].val, base) if st and isinstance(st[0].val, Lin) else None
            if not rep.ob("fresh", f"{site}: {name}", v is not None and v.const and len({e.val for e in st}) == 1, f"where it starts is not fixed by the constructor: {[str(e.val) for e in st]}", A.F.dname): continue
            rep.ob("header", f"{site}: {name}", off == v.c, f"its header tells offset {off}, its data starts at {v.c}", A.F.dname)
            rep.ob("place", f"{site}: {name}", v.c % align == 0, f"it starts at {v.c}, which is not a multiple of its alignment {align}", A.F.dname)
            rep.ob("place", f"{site}: {name}", v.c + alloc <= size, f"it ends at {v.c + alloc}, the file at {size}", A.F.dname)
            for n2, b, e in spans: rep.ob("place", f"{site}: {name}", v.c >= e or v.c + alloc <= b, f"[{v.c}, {v.c + alloc}) overlaps {n2} [{b}, {e})", A.F.dname)
            spans.append((name, v.c, v.c + alloc)); index[name] = i
            ext = ob.get(c + 8, 8)
            if real: rep.ob("fresh", f"{site}: {name}", ext == alloc, f"the object may use {ext} bytes, {alloc} are set aside for it", A.F.dname)
            if real and name != "SourceIndexBits":
                x = core.layout(M)[name]; ps = [e for e in p.events if e.kind == "store" and e.addr == x.pos]
                rep.ob("fresh", f"{site}: {name}", bool(ps) and ps[0].val == st[0].val, f"its write position starts as {ps[0].val if ps else None}", A.F.dname)
                for e in ps[1:]:
                    old = mem_at(A, p, e, e.addr, 8); d = sub(e.val, old) if isinstance(e.val, Lin) else None
                    rep.ob("fresh", f"{site}: {name}", d is not None and d.const and 0 < d.sc <= alloc, f"the constructor moves its write position to {e.val}", e.loc)
            elif real:
                x = core.layout(M)[name]; ps = [e for e in p.events if e.kind == "store" and e.addr == x]
                rep.ob("fresh", f"{site}: {name}", bool(ps) and ps[-1].val == const(0, 64), f"its used size starts as {ps[-1].val if ps else None}", A.F.dname)
        out = (ob, base, index, size)
    rep.ob("file", site, out is not None, "no path of the constructor ends normally", A.F.dname)
    return out
def T_eq(a, b):
    if a == b: return True
    return isinstance(a, Lin) and isinstance(b, Lin) and a.single() is not None and a.single()[0] in ("sext", "zext") and a.single()[2] == b
def sizes(M, L, n):
    """does a term equal what size() of section n returns?"""
    x = L[n]; a = x.at if isinstance(x, core.Sec) else x
    A = analyze(M, f"w_size_{n}"); want = []
    for p in A.paths:
        if p.end == "ret" and isinstance(p.ret, Lin): want.append(p.ret)
    def norm(t, off):
        return tuple(sorted((sub(y[1], arg(0)).c + off, y[2], k) if y[0] == "ld" and sub(y[1], arg(0)).const else ("?", 0, k) for y, k in t.t)) + (t.c,)
    ws = {norm(w, a.c) for w in want}
    return lambda t: isinstance(t, Lin) and norm(t, 0) in ws
def end_rules(rep, M, site, B, secs, obj, sized):
    ob, base, index, size = obj; done = 0
    def cell(t):
        """value the constructor left in the cell a loaded atom comes from, relative to the mapping"""
        if not (isinstance(t, Lin) and t.t): return None
        r = Lin(64, t.c)
        for a, k in t.t:
            if a[0] != "ld": return None
            d = sub(a[1], arg(0)); v = ob.get(d.c, a[2]) if d.const else None
            if isinstance(v, int): v = const(v, 64)
            if not isinstance(v, Lin): return None
            r = add(r, scale(v, k, 64), 64)
        return r
    for p in B.paths:
        rep.count("paths")
        if p.end == "noreturn": rep.ob("unmap", site, core.stopped(p), f"gives up without an error: {where(p)}", where(p))
        if p.end != "ret": continue
        # paths for an object that was never mapped cannot follow a finished constructor
        if any(c[0] in ("eq",) and isinstance(c[1], Lin) and c[2] == const(0, 64) and (cell(c[1]) is not None and sub(cell(c[1]), base).const) for c in p.facts.conds): continue
        done += 1; un = p.calls("munmap"); cut = p.events.index(un[0]) if un else len(p.events)
        if rep.ob("unmap", site, len(un) == 1, f"the mapping is released {len(un)} times", where(p)):
            rep.ob("unmap", site, cell(un[0].args[0]) == base and cell(un[0].args[1]) == const(size, 64), f"munmap({un[0].args[0]}, {un[0].args[1]}) is not the whole mapping", un[0].loc)
        cl = p.calls("close"); rep.ob("unmap", site, len(cl) == 1, f"the file is closed {len(cl)} times", where(p))
        got = {}
        for i, e in enumerate(p.events):
            if e.kind != "store" or not isinstance(e.addr, Lin): continue
            b = base_of(e.addr)
            if not (b and b[0] == "ld"): continue
            h = cell(atom(b, 64)); d = sub(e.addr, atom(b, 64))
            if h is None or not sub(h, base).const or not d.const: continue
            got.setdefault((sub(h, base).c + d.c) % 2**64, []).append((i, e))
        want = {24 + 24 * i: n for n, i in index.items()}
        for o, es in got.items():
            rep.ob("size", site, o in want, f"writes {es[-1][1].val} at offset {o} of the file, which is no section's size", es[-1][1].loc)
        for o, n in want.items():
            es = got.get(o, [])
            if not rep.ob("size", f"{site}: {n}", len(es) >= 1 and es[-1][0] < cut, "its size is not written before the mapping is released", where(p)): continue
            e = es[-1][1]
            rep.ob("size", f"{site}: {n}", e.size == 8 and sized(n)(e.val), f"the size written is {e.val}, not what the section reports as used", e.loc)
    rep.ob("size", site, done >= 1, "the destructor never ends normally", B.F.dname)
def keep(rep, M, dtor):
    cells = set()
    for p in dtor.paths:
        for e in p.events:
            ts = [e.addr] if e.kind == "store" else (e.args if e.kind == "call" and e.callee in ("munmap", "close") else [])
            for t in ts:
                if isinstance(t, Lin):
                    for a, _ in t.t:
                        if a[0] == "ld" and sub(a[1], arg(0)).const: cells.add(a[1])
    for d, A in core.method(M, r"\w+\("):
        if "~PolyTracker" in d or re.match(r"taintdag::PolyTracker::PolyTracker\(", d): continue
        rep.count("functions")
        for p in A.paths:
            for e in p.events:
                if e.kind not in ("store", "memset", "memcpy", "rmw", "cmpxchg") or not isinstance(e.addr, Lin): continue
                b = base_of(e.addr)
                rep.ob("keep", d.split("(")[0], e.addr not in cells and not (b and b[0] == "ld" and b[1] in cells), f"writes {e.addr}, which belongs to the file header or mapping", e.loc)
def ends(rep):
    M = life.module(); S = life.run(M, "__taint_start"); rep.count("functions", 3)
    objs, handlers = set(), set()
    for p in S.paths:
        rep.count("paths")
        if p.end != "ret": continue
        ct = life.tracing(p, "PolyTracker"); ae = p.calls("atexit") + p.calls("__cxa_atexit")
        if rep.ob("exit", "start-up", len(ct) == 1, f"the tracing object is constructed {len(ct)} times", where(p)): objs.add(ct[0].args[0])
        hs = [life.glob(e.args[0]) for e in ae]
        if rep.ob("exit", "start-up", len(ae) >= 1, "start-up ends without registering an exit handler", where(p)): handlers.add(tuple(hs))
    if not rep.ob("exit", "start-up", len(objs) == 1 and len(handlers) == 1, "start-up paths differ in object or handler", S.F.dname): return
    obj = objs.pop(); hs = handlers.pop(); finishing = 0
    for h in hs:
        if h is None or M.fn(h) is None: continue
        H = life.run(M, h); rep.count("functions")
        n = {sum(1 for e in life.tracing(p, "~PolyTracker") if e.args[0] == obj) for p in H.paths if p.end == "ret"}
        if n and n != {0}:
            finishing += 1
            once(rep, H, obj, f"exit handler {H.F.dname}", lambda p: p.end == "ret")
    rep.ob("exit", "exit handler", finishing == 1, f"{finishing} of the registered handlers complete the trace", S.F.dname)
    X = life.run(M, "__dfsw_exit")
    for p in X.paths:
        e = p.calls("exit"); oth = p.calls("_exit") + p.calls("_Exit") + p.calls("quick_exit") + p.calls("abort")
        rep.ob("exit", "exit wrapper", len(e) == 1 and not oth and e[0].args[0] == at(X, 0), f"ends through {[c.callee for c in p.calls()]}, so the exit handlers do not run or the status changes", where(p))
    F = life.run(M, "__dfsw___assert_fail")
    once(rep, F, obj, "assertion wrapper", lambda p: True)
    for p in F.paths:
        e = p.calls("__assert_fail") + p.calls("abort")
        if not rep.ob("exit", "assertion wrapper", len(e) == 1, f"the assertion is reported {len(e)} times", where(p)): continue
        k = p.events.index(e[0])
        rep.ob("exit", "assertion wrapper", any(q in p.events[:k] for q in life.tracing(p, "~PolyTracker")), "the program is aborted before the trace is complete", e[0].loc)
        rep.ob("exit", "assertion wrapper", e[0].callee != "__assert_fail" or [a for a in e[0].args[:4]] == [at(F, i) for i in range(4)], "the assertion reported is not the one that failed", e[0].loc)
def once(rep, A, obj, site, sel):
    for p in A.paths:
        rep.count("paths")
        if not sel(p): continue
        d = life.tracing(p, "~PolyTracker")
        if not rep.ob("exit", site, len(d) == 1 and d[0].args[0] == obj, f"the trace is completed {len(d)} times when {conds(p)[:200] or 'always'}", where(p)): continue
        k = p.events.index(d[0])
        late = [e for e in life.tracing(p) if p.events.index(e) > k]
        rep.ob("exit", site, not late, f"{late[0].dname if late else ''} is called after the trace was completed", late[0].loc if late else site)
