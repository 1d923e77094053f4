"""Path-sensitive value-flow analysis of the cavity code (syntax trees): the marker of every input byte is followed
through creation, growth, marking, merging and conversion; each loop is decided from its generic iteration, so the result
holds for every trace."""
from .py import *
from .c22_mapping import check_walk
MIN_OBLIGATIONS = 40
MOD = "mapping"
SINKS, INPUTS = ("op", "SINKS"), ("op", "INPUTS")
def PATH(i): return ("op", "PATH", i)
def HDR(i): return ("obj", "taint_dag", "TDFDHeader", i)
def headers(it, st, v, i):
    if v == ("op", "attr", TD, "fd_headers"): return [(st, ("tup", (PATH(i), HDR(i))))]
    return None
def nonzero(v): return num(v) is not None and 1 <= num(v) <= 255
def content(it, st, v, old):
    """(what the bytes start from: 'zero' or 'old', length, writes) of a marker value"""
    if v == old: return "old", ("len", old), []
    o = it.obj(st, v)
    if o is None or o.kind != "bytes": return None
    n, w, src = o.data
    if src is None: return "zero", n, list(w)
    if src == ("op", "copyof", old): return "old", n, list(w)
    if src[0] == "op" and src[1] in ("pad", "copy"):
        if src[2] == old: return "old", n, list(src[3][0]) + list(w)
        if src[2][0] == "ref" and src[3][1] is None: return "zero", n, list(src[3][0]) + list(w)
    return None
def check(rep):
    P = program(); P.mod(MOD)
    rep.assumptions += ["decode_node answers as established by C02; input_labels enumerates every input label and nothing else, sinks every sink record (C25, C14)",
                        "every label below a label that affects control flow affects control flow itself (C05)"]
    rep.rule("init", "after the first pass every input label's byte has a marker: zero everywhere, as long as the known size or the highest offset read, set exactly where control flow was affected")
    rep.rule("outputs", "every input byte reached from a sink is marked; a walk is cut short only below labels that affect control flow")
    rep.rule("merge", "openings of one file are combined byte by byte over the longest of them")
    rep.rule("ranges", "the ranges reported are exactly the maximal runs of unmarked bytes, in order")
    rep.rule("result", "every file with markers is reported, under its path")
    for r, t in (("walk", "the walk starts at the given label and goes on until no label is pending"), ("once", "each label is reported and expanded once"),
                 ("report", "a label taken is reported together with its own node"), ("members", "a union adds both its members, a range every label from first to last, an input nothing")): rep.rule(r, t)
    check_walk(rep, P, True)
    ranges(rep, P)
    def walk(it, st, self, args, kw):
        a = args[0] if args else kw["label"]; b = args[1] if len(args) > 1 else kw.get("seen", ("c", None))
        return [(st, ("op", "WALK", a, b))]
    it = Interp(P, {("InputOutputMapping", "dfs_walk"): walk, ("TDFile", "sinks"): prop(const_model(SINKS)), ("TDFile", "input_labels"): const_model(INPUTS), "index": headers,
                    ("TDFile", "decode_node"): decode_model, ("InputOutputMapping", "marker_to_ranges"): lambda it, st, self, a, k: [(st, ("op", "RANGES", it.flat(st, a[0] if a else next(iter(k.values())))))]})
    st = start(P, MOD); me = it.inst(st, P.mod(MOD).classes["InputOutputMapping"], tdfile=TD); site = "InputOutputMapping.file_cavities"
    res = it.run(MOD, "InputOutputMapping", "file_cavities", [me], st=st); rep.count("functions"); rep.count("paths", len(res)); n = 0
    for x, o in res:
        if o[0] == "raise" and any(c[0] == "kind" and c[2] == "TDSourceNode" and not b and c[1][:3] == ("op", "elem", INPUTS) for c, b in x.facts): continue    # an index that names other labels
        if not rep.ob("result", site, o[0] == "return" and o[1][0] == "ref" and x.heap[o[1][1]].kind == "dict", f"fails ({o[0]}) when {facts(x.facts)}", site): continue
        loops = [e[1] for e in x.ev if e[0] == "loop"]
        A = [L for L in loops if L.cond == ("more", INPUTS, ("k", L.id))]; B = [L for L in loops if L.cond == ("more", SINKS, ("k", L.id))]
        if not rep.ob("init", site, len(A) == 1, f"{len(A)} passes over the input labels", site): continue
        if not rep.ob("outputs", site, len(B) == 1, f"{len(B)} passes over the sinks", site): continue
        n += 1
        mk = first_pass(rep, it, A[0], site)
        if mk is None: continue
        sink_pass(rep, it, B[0], mk, site)
        rest(rep, it, x, o, loops, mk, B[0], site)
    rep.ob("result", site, n > 0, "never completes", site)
def first_pass(rep, it, L, site):
    w = where(MOD, L); lbl = ("op", "elem", INPUTS, ("k", L.id)); idx, off = nattr(lbl, "idx"), nattr(lbl, "offset")
    cand = {e[1][1] for p in L.paths for e in p.events if e[0] == "setitem" and e[1][0] == "ref" and e[1][1] in L.head.heap and L.head.heap[e[1][1]].kind == "dict"}
    if not rep.ob("init", site, len(cand) == 1, f"markers are kept in {len(cand)} collections", w): return None
    mk = cand.pop(); sym = L.head.heap[mk].data[0]; old = ("op", "item", sym, idx)
    rep.ob("init", site, L.entry.heap[mk].data == (None, ()), "the markers do not start empty", w)
    size = ("op", "attr", HDR(idx), "size")
    for p in body(L):
        if p.out[0] == "raise" and kind(p.st, lbl) != "TDSourceNode": continue
        rep.count("paths"); s = p.st; f = facts(p.facts)
        if not rep.ob("init", site, p.out[0] in ("next", "continue"), f"the pass ends ({p.out[0]}) when {f}", w): continue
        if kind(s, lbl) not in ("TDSourceNode", None): continue
        if not rep.ob("init", site, kind(s, lbl) == "TDSourceNode", "an input label is not looked at", w): continue
        there = it.decide(s, ("in", idx, sym))
        if there is True and it.decide(s, ("isnone", old)) is True: continue                  # markers are never None
        ws = s.heap[mk].data[1]
        bad = [k for k, _ in ws if k != idx]
        rep.ob("init", site, not bad and s.heap[mk].data[0] == sym, f"markers of other inputs are replaced: {[show(k) for k in bad]}", w)
        v = ws[-1][1] if ws else old
        if not ws: rep.ob("init", site, there is True, f"no marker is made for an input when {f}", w)
        c = content(it, s, v, old)
        if not rep.ob("init", site, c is not None, f"the marker becomes {show(v)}, neither new nor the old one grown", w): continue
        b, n, wr = c
        for e in p.events:
            if e[0] == "setitem" and e[1] == old and v == old: wr.append((e[2], e[3]))
            elif e[0] == "mut" and e[1] == old:
                z = e[4][0] if len(e) > 4 else None
                if v == old and e[2] == "extend" and z is not None and z[0] == "bytes" and z[1][1:] == ((), None): n = add(n, z[1][0])
                else: rep.ob("init", site, False, f"an existing marker is changed by {e[2]}", w)
        if there is not True: rep.ob("init", site, there is False and b == "zero", f"the marker of an input seen for the first time is not new and zero ({'known' if there is None else 'first'}: {b})", w)
        else: rep.ob("init", site, b == "old", f"the marker of a known input starts over when {f}", w)
        rep.ob("init", site, it.ent(s, sub(add(off, I(1)), n)), f"the marker can be too short for the offset: length {show(n)} when {f}", w)
        inv = it.decide(s, eqc(size, I(2 ** 64 - 1)))
        if b == "zero":
            rep.ob("init", site, inv is True or it.ent(s, sub(size, n)), f"a new marker can be shorter than the input: length {show(n)} when {f}", w)
            rep.ob("init", site, it.ent(s, sub(n, add(off, I(1)))) or (inv is False and it.ent(s, sub(n, size))), f"a new marker is longer than the known size and the offset read: {show(n)} when {f}", w)
        else: rep.ob("init", site, it.ent(s, sub(("len", old), n)) and (it.ent(s, sub(n, ("len", old))) or it.ent(s, sub(n, add(off, I(1))))), f"a known marker gets length {show(n)} when {f}", w)
        m = it.decide(s, it.truth(s, mark(lbl)))
        if m is True: rep.ob("init", site, len(wr) == 1 and wr[0][0] == off and nonzero(wr[0][1]), f"a byte that affected control flow is not marked (writes {[(show(a), show(q)) for a, q in wr]})", w)
        else: rep.ob("init", site, m is False and not wr, f"bytes {[(show(a), show(q)) for a, q in wr]} are marked when {f}", w)
    return mk
def marks(it, ev, sym):
    """writes to bytes of markers: (input, offset, value); anything else done to them is ('?', event)"""
    out = []
    for e in ev:
        if e[0] == "setitem" and e[1][0] == "op" and e[1][1] == "item" and e[1][2] == sym: out.append((e[1][3], e[2], e[3]))
        elif e[0] == "mut" and e[1][0] == "op" and e[1][1] == "item" and e[1][2] == sym: out.append(("?", e[2], I(0)))
    return out
def sink_pass(rep, it, L, mk, site):
    w = where(MOD, L); s_ = ("op", "elem", SINKS, ("k", L.id)); lbl = ("op", "attr", s_, "label"); sym = L.head.heap[mk].data[0]
    seens = {J.iter[3][1] for p in L.paths for e in p.events if e[0] == "loop" for J in [e[1]] if J.iter is not None and J.iter[0] == "op" and J.iter[1] == "WALK" and J.iter[3][0] == "ref" and J.iter[3][1] in L.head.heap}
    visited = [L.head.heap[r].data for r in seens]
    for p in body(L):
        rep.count("paths"); s = p.st; f = facts(p.facts)
        if not rep.ob("outputs", site, p.out[0] in ("next", "continue"), f"later sinks are not considered ({p.out[0]}) when {f}", w): continue
        rep.ob("outputs", site, s.heap[mk].data == L.head.heap[mk].data or all(False for _ in ()), "markers are replaced while sinks are looked at", w) if s.heap[mk].data[1] else None
        inner = [e[1] for e in p.events if e[0] == "loop"]; ms = marks(it, p.events, sym); kd = kind(s, lbl)
        walks = [J for J in inner if J.iter is not None and J.iter[0] == "op" and J.iter[1] == "WALK"]
        if not rep.ob("outputs", site, len(walks) == len(inner) and len(walks) <= 1, "a sink is handled by a loop that is not a walk", w): continue
        if not walks:
            if ms:
                ok = kd == "TDSourceNode" and all(m[:2] == (nattr(lbl, "idx"), nattr(lbl, "offset")) and nonzero(m[2]) for m in ms)
                rep.ob("outputs", site, ok, f"marks {[(show(a) if a != '?' else a, show(b) if isinstance(b, tuple) else b) for a, b, _ in ms]} for a sink when {f}", w)
            else:
                skip = it.decide(s, it.truth(s, mark(lbl))) is True or kd == "TDUntaintedNode" or any(it.decide(s, ("in", lbl, v)) is True for v in visited)
                rep.ob("outputs", site, skip, f"a sink is left out when {f}", w)
            continue
        J = walks[0]; W = J.iter; wj = where(MOD, J)
        rep.ob("outputs", site, not ms, "bytes are marked beside the walk", w)
        rep.ob("outputs", site, W[2] == lbl, f"walks from {show(W[2])}, not from the sink's label", wj)
        seen = W[3][1] if W[3][0] == "ref" else None
        rep.ob("outputs", site, W[3] == ("c", None) or (seen is not None and s.heap[seen].kind == "set"), "the visited labels are not a set", wj)
        for q in J.paths:
            g = facts(q.facts); e = ("op", "elem", W, ("k", J.id)); nd = ("op", "item", e, I(1)); src = it.decide(q.st, ("isinst", nd, ("cls", "taint_dag", "TDSourceNode")))
            rep.count("paths"); rep.ob("outputs", site, q.out[0] in ("next", "continue"), f"a walk is abandoned ({q.out[0]}) when {g}", wj)
            jm = marks(it, q.events, J.head.heap[mk].data[0]); at = lambda a: ("op", "attr", nd, a)
            if src is True: rep.ob("outputs", site, len(jm) >= 1 and all(m[:2] == (at("idx"), at("offset")) and nonzero(m[2]) for m in jm) or (not jm and it.decide(q.st, it.truth(q.st, at("affects_control_flow"))) is True), f"an input byte reached is not marked as such when {g}", wj)
            else: rep.ob("outputs", site, src is False and not jm, f"marks {len(jm)} bytes for a label that is no input when {g}", wj)
            if seen is None or seen not in J.head.heap: continue
            h, d = J.head.heap[seen].data, q.st.heap[seen].data
            extra = d[len(h):] if d[:len(h)] == h else None
            if not rep.ob("outputs", site, extra is not None, "labels are taken out of the visited ones" if extra is None else "", wj): continue
            if not extra: continue
            cf = it.decide(q.st, it.truth(q.st, at("affects_control_flow")))
            fine = [("item", at("left")), ("item", at("right")), ("many", ("range", at("first"), add(at("last"), I(1)), I(1))), ("item", at("first")), ("item", at("last")), ("item", ("op", "item", e, I(0)))]
            rep.ob("outputs", site, cf is True and all(z in fine for z in extra), f"labels {[show(z[1]) for z in extra]} are declared visited when {g}", wj)
        if seen is not None and seen in L.head.heap:
            rep.ob("outputs", site, all(not (e[0] == "mut" and e[1] == ("ref", seen)) for e in p.events), "labels are declared visited outside the walk", w)
            rep.ob("outputs", site, L.entry.heap[seen].data == (), "labels are declared visited before the sinks are looked at", w)
def view_of(b): return b
def rest(rep, it, x, o, loops, mk, B, site):
    """merging by path and the result"""
    tail = loops[loops.index(B) + 1:]
    sym = x.heap[mk].data[0]
    if not rep.ob("merge", site, not x.heap[mk].data[1], "markers are changed after the sinks", site): return
    G = [L for L in tail if L.iter is not None and (L.iter == ("items", sym) or L.iter == ("op", "keys", sym))]
    if not rep.ob("merge", site, len(G) == 1, f"{len(G)} passes over the markers", site): return
    L = G[0]; w = where(MOD, L); k = ("k", L.id)
    if L.iter[0] == "items": key, vals = ("op", "key", sym, k), [("op", "val", sym, k)]
    else: key, vals = ("op", "elem", L.iter, k), []
    vals.append(("op", "item", sym, key)); name = PATH(key)
    cand = {e[1][1] for p in L.paths for e in p.events if e[0] == "setitem" and e[1][0] == "ref" and e[1][1] in L.head.heap and L.head.heap[e[1][1]].kind == "dict"}
    if not rep.ob("merge", site, len(cand) == 1, "the merged markers are not kept in one collection", w): return
    mg = cand.pop(); msym = L.head.heap[mg].data[0]; old = ("op", "item", msym, name)
    rep.ob("merge", site, L.entry.heap[mg].data == (None, ()), "the merged markers do not start empty", w)
    for p in body(L):
        rep.count("paths"); f = facts(p.facts)
        if not rep.ob("merge", site, p.out[0] in ("next", "continue"), f"later inputs are not merged ({p.out[0]}) when {f}", w): continue
        ws = p.st.heap[mg].data[1]; there = it.decide(p.st, ("in", name, msym))
        if not rep.ob("merge", site, len({a for a, _ in ws}) == 1 and ws[0][0] == name and there is not None, f"an input is merged under {[show(a) for a, _ in ws]}, not under its path", w): continue
        v = ws[-1][1]; ob = it.obj(p.st, v)
        src = lambda z: {("view", ("op", "copyof", q), I(0), ("len", ("op", "copyof", q))) for q in z} | set(z)
        if it.decide(p.st, ("isnone", old)) is True: continue      # every stored marker is checked here, none of them is None
        if there is False or it.decide(p.st, ("truthy", old)) is False:
            ok = v in vals or (ob is not None and ob.kind == "bytes" and ob.data[1] == () and ob.data[2] in [("op", "copyof", q) for q in vals])
            rep.ob("merge", site, ok, f"the first opening of a file is taken over as {show(v) if ob is None else ob}", w)
        else:
            ok = ob is not None and ob.kind == "list" and len(ob.data) == 1 and ob.data[0][0] == "many" and ob.data[0][1][0] == "mapped"
            if ok:
                m = ob.data[0][1]; c = m[3]; ok = c[0] == "more" and c[1][0] == "ziplong" and c[1][2] == I(0) and len(c[1][1]) == 2
                if ok:
                    a, b = c[1][1]; ok = (a in src([old]) and b in src(vals)) or (b in src([old]) and a in src(vals))
                    ea, eb = (("op", "elemor", q, ("k", m[1]), I(0)) for q in (a, b)); ok &= m[2] in (bor(ea, eb), bor(eb, ea), ("op", "max", ("tup", (ea, eb))))
            rep.ob("merge", site, ok, f"a further opening of a file is not combined with the earlier ones byte by byte over the longest: {show(ob.data[0][1]) if ob is not None and ob.kind == 'list' and ob.data else show(v)}", w)
    # result
    R = [L2 for L2 in tail if L2 is not L and L2.iter is not None and (L2.iter == ("items", x.heap[mg].data[0]) or L2.iter == ("op", "keys", x.heap[mg].data[0]))]
    if not rep.ob("result", site, len(R) == 1, "the merged markers are not all converted", site): return
    L = R[0]; k = ("k", L.id); sy = x.heap[mg].data[0]; w = where(MOD, L)
    kk = ("op", "key", sy, k) if L.iter[0] == "items" else ("op", "elem", L.iter, k)
    want = [("op", "RANGES", q) for q in ([("op", "val", sy, k)] if L.iter[0] == "items" else []) + [("op", "item", sy, kk)]]
    for p in body(L):
        e = [(q[2], q[3]) for q in p.events if q[0] == "setitem" and q[1] == o[1]]
        rep.ob("result", site, p.out[0] in ("next", "continue") and len(e) == 1 and e[0][0] == kk and e[0][1] in want, f"a file is reported as {[(show(a), show(b)) for a, b in e]}", w)
def ranges(rep, P):
    """marker_to_ranges"""
    it = Interp(P); st = start(P, MOD); site = "InputOutputMapping.marker_to_ranges"; n = ("nn", "n"); buf = ("op", "marker"); m = ("view", buf, I(0), n)
    me = it.inst(st, P.mod(MOD).classes["InputOutputMapping"], tdfile=TD)
    res = produced(it, it.run(MOD, "InputOutputMapping", "marker_to_ranges", [me, m], st=st)); rep.count("functions"); rep.count("paths", len(res))
    rep.ob("ranges", site, bool(normal(res)), "never completes", site)
    for x, o in res:
        if not rep.ob("ranges", site, o[0] in ("return", "next"), f"fails ({o[0]}) when {facts(x.facts)}", site): continue
        top = [e for e in x.ev if e[0] == "loop"]
        if not rep.ob("ranges", site, len(top) == 1, f"{len(top)} loops", site): continue
        L = top[0][1]; w = where(MOD, L)
        if nested(it, L): scan(rep, it, x, L, buf, n, site, w)
        else: table(rep, it, x, L, buf, n, site, w)
def nested(it, L): return any(e[0] == "loop" for p in L.paths for e in p.events)
def unset(it, st, v, none):
    """does v hold the value that stands for 'no run'?"""
    if none == ("c", None):
        if v == none: return True
        if v[0] in ("i", "k", "K", "nn"): return False
        return it.decide(st, ("isnone", v))
    r = it.decide(st, eqc(v, none))
    if r is None and num(none) is not None and num(none) < 0: r = True if it.ent(st, add(v, I(1))) else False if it.ent(st, scale(v, -1)) else None
    return r
def tuples(ev):
    return [e[1] for e in shape(ev) if e[0] == "yield"]
def table(rep, it, x, L, buf, n, site, w):
    """one pass with the start of the current run in a variable"""
    k = ("k", L.id); hv, ev = it.vars(L.head), it.vars(L.entry)
    ks = [key for key, v in hv.items() if key[0] == "v" and v == ("op", "lv", L.id, key) and ev.get(key) is not None and (ev[key] == ("c", None) or (num(ev[key]) or 0) < 0)]
    if not rep.ob("ranges", site, len(ks) == 1, "no variable holds the start of the current run", w): return
    key = ks[0]; S = ("op", "lv", L.id, key); none = ev[key]; b = ("rd", buf, k, 1, False)
    for c in total(it, x, L, n, 1): rep.ob("ranges", site, False, c, w)
    for p in body(L):
        rep.count("paths"); z = it.decide(p.st, ("eq0", b)); u = unset(it, p.st, S, none); ys = tuples(p.events); e = it.vars(p.st)[key]; f = facts(p.facts)
        if z is None: rep.ob("ranges", site, False, f"a byte's marker is not looked at when {f}", w); continue
        ue = unset(it, p.st, e, none)
        if z:
            ok = not ys and ((u is True and e == k) or (u is False and e == S) or (u is None and False))
            rep.ob("ranges", site, ok, f"an unmarked byte k: reports {[show(y) for y in ys]}, start of the run becomes {show(e)} when {f}", w)
        else:
            ok = (u is True and not ys and ue is True) or (u is False and ys == [("tup", (S, k))] and ue is True)
            rep.ob("ranges", site, ok, f"a marked byte k: reports {[show(y) for y in ys]}, start of the run becomes {show(e)} when {f}", w)
    i = x.ev.index(next(e for e in x.ev if e[0] == "loop" and e[1] is L)); after = [e[1] for e in x.ev[i + 1:] if e[0] == "yield"]; before = [e for e in x.ev[:i] if e[0] == "yield"]
    u = unset(it, x, S, none)
    ok = not before and ((u is True and not after) or (u is False and after in ([("tup", (S, n))], [("tup", (S, ("K", L.id)))])))
    rep.ob("ranges", site, ok, f"at the end {[show(y) for y in after]} is reported when {facts(x.facts)}", w)
def scan(rep, it, x, L, buf, n, site, w):
    """an outer loop that looks for the next run and an inner one that finds its end"""
    hv, ev = it.vars(L.head), it.vars(L.entry)
    ks = [key for key, v in hv.items() if key[0] == "v" and (v == ("op", "lv", L.id, key) or v == ("k", L.id)) and ev.get(key) == I(0)]
    if not rep.ob("ranges", site, len(ks) == 1, "no position that starts at the first byte", w): return
    key = ks[0]; i = hv[key]; b = ("rd", buf, i, 1, False)
    for e in stops(L): rep.ob("ranges", site, it.ent(e, sub(n, i)), f"the search can end early when {facts(e.facts[len(L.head.facts):])}", w)
    for p in body(L):
        rep.count("paths"); f = facts(p.facts); rep.ob("ranges", site, p.out[0] in ("next", "continue") and it.ent(p.st, add(sub(i, n), I(1))), f"reads beyond the marker or stops early when {f}", w)
        z = it.decide(p.st, ("eq0", b)); ys = tuples(p.events); nx = it.vars(p.st)[key]; inner = [e[1] for e in p.events if e[0] == "loop"]
        if z is False: rep.ob("ranges", site, not ys and nx == add(i, I(1)) and not any(J.paths for J in inner), f"a marked byte: reports {[show(y) for y in ys]}, goes on at {show(nx)}", w); continue
        if not rep.ob("ranges", site, z is True and len(inner) == 1, f"the run is not followed when {f}", w): continue
        J = inner[0]; js = [q for q, v in it.vars(J.head).items() if q[0] == "v" and v in (add(i, ("k", J.id)), add(add(i, I(1)), ("k", J.id)))]
        if not rep.ob("ranges", site, len(js) >= 1, "no position follows the run byte by byte", w): continue
        jv = it.vars(J.head)[js[0]]; jb = ("rd", buf, jv, 1, False); end = it.vars(p.st)[js[0]] if js[0] != key else None
        for q in J.paths: rep.ob("ranges", site, q.out[0] in ("next", "continue") and it.decide(q.st, ("eq0", jb)) is True and it.ent(q.st, add(sub(jv, n), I(1))), f"a run goes on over a marked byte when {facts(q.facts)}", w)
        E = it.sub_v(jv, ("k", J.id), ("K", J.id)); bE = ("rd", buf, E, 1, False)
        rep.ob("ranges", site, it.ent(p.st, sub(n, E)) or it.decide(p.st, ("eq0", bE)) is False, f"a run can end at an unmarked byte when {f}", w)
        rep.ob("ranges", site, ys == [("tup", (i, E))], f"a run is reported as {[show(y) for y in ys]}", w)
        rep.ob("ranges", site, nx == E or (nx == add(E, I(1))), f"after a run the search goes on at {show(nx)}", w)
    i0 = [e[0] for e in x.ev if e[0] == "yield"]
    rep.ob("ranges", site, not i0, "ranges are reported outside the search", w)
