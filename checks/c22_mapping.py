"""Path-sensitive value-flow analysis of the mapping code (syntax trees): the walk is a worklist loop, so one generic
iteration decides it for every trace - which label is taken, when it is skipped, what is reported and what is added, per
node kind; the mapping is decided from the generic sink and the generic element of its walk."""
from .py import *
MIN_OBLIGATIONS = 25
MOD = "mapping"
SINKS = ("op", "SINKS")
def same_members(it, st, segs, lbl, kd, seenbox):
    """are the pushed segments exactly the members of the node lbl of kind kd (members already seen may be left out)?"""
    want = {"TDUnionNode": [nattr(lbl, "left"), nattr(lbl, "right")], "TDSourceNode": [], "TDUntaintedNode": []}.get(kd)
    if kd == "TDRangeNode":
        f, l = nattr(lbl, "first"), nattr(lbl, "last")
        items = [s[1] for s in segs if s[0] == "item"]; many = [s[1] for s in segs if s[0] != "item"]
        while len(many) == 1 and many[0][0] == "op" and many[0][1] in ("reversed", "sorted"): many = [many[0][2]]
        if len(many) == 1 and many[0][0] == "loopadd":
            J = it.loops[many[0][1]]; r = many[0][2]; n = len(J.head.heap[r].data)
            def each(e): return all(z.out[0] in ("next", "continue") and ([q[1] for q in z.st.heap[r].data[n:]] == [e] or
                (z.st.heap[r].data[n:] == () and seenbox and (it.decide(z.st, ("in", e, seenbox)) is True or it.decide(z.st, eqc(e, lbl)) is True))) for z in J.paths)
            if not (each(add(f, ("k", J.id))) or each(sub(l, ("k", J.id)))): return False
            return not items and not total(it, st, J, add(sub(l, f), I(1)), 1)
        if len(many) != 1 or many[0][0] != "range": return False
        r = many[0]; lo, hi = (r[1], r[2]) if num(r[3]) == 1 else (add(r[2], I(1)), add(r[1], I(1))) if num(r[3]) == -1 else (None, None)
        if lo is None: return False
        miss = ([f] if lo == add(f, I(1)) else [] if lo == f else None), ([l] if hi == l else [] if hi == add(l, I(1)) else None)
        if None in miss: return False
        return sorted(items, key=repr) == sorted(miss[0] + miss[1], key=repr)
    if want is None or any(s[0] != "item" for s in segs): return False
    got = [s[1] for s in segs]
    for w in want:
        if w in got: got.remove(w)
        elif not (seenbox and it.decide(st, ("in", w, seenbox)) is True): return False
    return not got
def check_walk(rep, P, given):
    site = "InputOutputMapping.dfs_walk" + ("(shared seen)" if given else "")
    it = Interp(P, {("TDFile", "decode_node"): decode_model}); st = start(P, MOD)
    me = it.inst(st, P.mod(MOD).classes["InputOutputMapping"], tdfile=TD); root = ("nn", "root"); args = [me, root]
    if given: args.append(it.new(st, "set", None, (("unk", ("op", "SEEN")),)))
    res = produced(it, it.run(MOD, "InputOutputMapping", "dfs_walk", args, st=st)); rep.count("functions"); rep.count("paths", len(res))
    rep.ob("walk", site, bool(normal(res)), "the walk never ends normally", site)
    for x, o in res:
        if not rep.ob("walk", site, o[0] in ("return", "next"), f"fails ({o[0]}) when {facts(x.facts)}", site): continue
        sh = shape(x.ev)
        if not rep.ob("walk", site, len(sh) == 1 and sh[0][0] == "loop", f"values are reported by {[e[0] for e in sh]}", site): continue
        L = sh[0][1]; w = where(MOD, L); rep.count("paths", len(L.paths))
        work = [r for r, ob in L.head.heap.items() if ob.kind == "list" and len(ob.data) == 1 and ob.data[0][0] == "unk" and L.entry.heap[r].data == (("item", root),)]
        if not rep.ob("walk", site, len(work) == 1, "the pending labels do not start as exactly the walked label", w): continue
        wk = work[0]; sym = L.head.heap[wk].data[0][1]; pops = [("op", "popped", sym, d) for d in ("last", "first")]
        seen = [r for r, ob in L.head.heap.items() if ob.kind == "set" or (ob.kind == "dict")]
        boxes = {c[2] for p in L.paths for c, _ in p.facts if c[0] == "in" and c[1] in pops}
        if not rep.ob("once", site, len(boxes) == 1, "whether a label was visited before is not decided by one collection", w): continue
        box = next(iter(boxes)); sref = next((r for r in seen if L.head.heap[r].data == box or (L.head.heap[r].kind == "dict" and L.head.heap[r].data[0] == box)), None)
        if not rep.ob("once", site, sref is not None, "the collection of visited labels is not found", w): continue
        if not given: rep.ob("once", site, L.entry.heap[sref].data in ((), (None, ())), "the collection of visited labels does not start empty", w)
        for e in stops(L):
            c = ("nonempty", (("unk", sym),))
            rep.ob("walk", site, it.decide(e, c) is False or it.ent(e, ("len", sym)), f"the walk can end with labels pending: {facts(e.facts[len(L.head.facts):])}", w)
        for p in body(L):
            rep.ob("walk", site, p.out[0] in ("next", "continue"), f"the walk can stop early ({p.out[0]}) when {facts(p.facts)}", w)
            end = p.st.heap[wk].data; lbl = next((q for q in pops if end and ("unk", ("op", "rest", sym, q[3])) in end), None)
            if not rep.ob("walk", site, lbl is not None, "an iteration does not take one pending label", w): continue
            pushed = [s for s in end if s != ("unk", ("op", "rest", sym, lbl[3]))]
            was = it.decide(p.st, ("in", lbl, box)); ys = shape(p.events); kd = kind(p.st, lbl)
            send = p.st.heap[sref].data
            if was is True:
                rep.ob("once", site, not ys and not pushed, f"a label visited before is {'reported' if ys else 'expanded'} again", w); continue
            ok = len(ys) == 1 and ys[0][0] == "yield" and ys[0][1][0] == "tup" and len(ys[0][1][1]) == 2 and ys[0][1][1][0] == lbl
            if ok:
                n = it.obj(p.st, ys[0][1][1][1]); ok = n is not None and n.kind == "inst" and n.cls.name == kd and (kd == "TDUntaintedNode" or dict(n.data)["affects_control_flow"] == mark(lbl))
            rep.ob("report", site, ok, f"a label is reported as {[show(y[1]) for y in ys if y[0] == 'yield']} when {facts(p.facts)}", w)
            mine = [s for s in (send if p.st.heap[sref].kind == "set" else tuple(("item", k) for k, _ in send[1])) if s[0] == "item"]
            rep.ob("once", site, mine == [("item", lbl)], f"the visited labels are extended by {[show(s[1]) for s in mine]}, not by the label taken", w)
            rep.ob("members", site, same_members(it, p.st, pushed, lbl, kd, box), f"a {kd} adds {[show(s[1]) for s in pushed]}", w)
def check(rep):
    P = program(); P.mod(MOD)
    rep.assumptions += ["decode_node answers as established by C02; sinks enumerates every sink record (C25); sink labels and node members are valid labels"]
    rep.rule("walk", "the walk starts at the given label and goes on until no label is pending")
    rep.rule("once", "each label is reported and expanded once")
    rep.rule("report", "a label taken is reported together with its own node")
    rep.rule("members", "a union adds both its members, a range every label from first to last, an input nothing")
    rep.rule("every", "every sink record is walked from its own label, independently of the others")
    rep.rule("link", "each input byte reached, and nothing else, is linked to the sink record by path and offset")
    check_walk(rep, P, False); check_walk(rep, P, True)
    site = "InputOutputMapping.mapping"; calls = []
    def walk(it, st, self, args, kw):
        return [(st, ("op", "WALK", args[0] if args else kw["label"], args[1] if len(args) > 1 else kw.get("seen", ("c", None))))]
    it = Interp(P, {("InputOutputMapping", "dfs_walk"): walk, ("TDFile", "sinks"): prop(const_model(SINKS)), ("TDFile", "decode_node"): decode_model})
    st = start(P, MOD); me = it.inst(st, P.mod(MOD).classes["InputOutputMapping"], tdfile=TD)
    res = it.run(MOD, "InputOutputMapping", "mapping", [me], st=st); rep.count("functions"); rep.count("paths", len(res))
    for x, o in res:
        if not rep.ob("every", site, o[0] == "return" and o[1][0] == "ref" and x.heap[o[1][1]].kind == "dict", f"ends with {o[0]} when {facts(x.facts)}", site): continue
        loops = [e[1] for e in x.ev if e[0] == "loop" and has_walk(e[1])]
        if not rep.ob("every", site, len(loops) == 1, f"{len(loops)} loops walk sinks", site): continue
        L = loops[0]; w = where(MOD, L); s = ("op", "elem", SINKS, ("k", L.id))
        rep.ob("every", site, L.cond == ("more", SINKS, ("k", L.id)), f"goes over {show(L.iter) if L.iter else L.cond}, not over every sink record", w)
        rets = {o[1][1]}
        d0 = x.heap[o[1][1]].data[0]
        if d0 is not None and d0[0] == "op" and d0[1] == "dictof": pass
        for p in L.paths:
            rep.ob("every", site, p.out[0] in ("next", "continue"), f"later sinks are not considered ({p.out[0]}) when {facts(p.facts)}", w)
            inner = [e[1] for e in p.events if e[0] == "loop" and walk_of(e[1])]
            if not rep.ob("every", site, len(inner) == 1, f"a sink record is walked {len(inner)} times when {facts(p.facts)}", w): continue
            J = inner[0]; W = walk_of(J)
            rep.ob("every", site, W[2] == ("op", "attr", s, "label"), f"walks from {show(W[2])}, not from the sink's label", w)
            fresh = W[3] == ("c", None) or (W[3][0] == "ref" and W[3][1] not in L.head.heap and p.st.heap[W[3][1]].kind == "set" and J.entry.heap[W[3][1]].data == ())
            rep.ob("every", site, fresh, "the walks of different sink records share their visited labels, so a contribution found for one is missing for the next", w)
            for q in J.paths:
                e = ("op", "elem", W, ("k", J.id)); n = ("op", "item", e, I(1)); lb = ("op", "item", e, I(0))
                rep.ob("link", site, q.out[0] in ("next", "continue"), f"the walk of a sink is abandoned ({q.out[0]}) when {facts(q.facts)}", where(MOD, J))
                src = it.decide(q.st, ("isinst", n, ("cls", "taint_dag", "TDSourceNode")))
                eff = links(q.events)
                key = ("tup", (("op", "item", fdh(("op", "attr", n, "idx")), I(0)), ("op", "attr", n, "offset")))
                val = ("tup", (("op", "item", fdh(("op", "attr", s, "fdidx")), I(0)), ("op", "attr", s, "offset")))
                if src is True: rep.ob("link", site, eff == [(key, val)], f"an input byte is linked as {[(show(a), show(b)) for a, b in eff]} when {facts(q.facts)}; expected {show(key)} -> {show(val)}", where(MOD, J))
                else: rep.ob("link", site, src is False and not eff, f"links {eff} when {facts(q.facts)}", where(MOD, J))
def walk_of(L):
    i = L.iter
    return i if i is not None and i[0] == "op" and i[1] == "WALK" else None
def has_walk(L): return any(e[0] == "loop" and (walk_of(e[1]) or has_walk(e[1])) for p in L.paths for e in p.events)
def links(ev):
    """additions to the sets of a dictionary: (key, value)"""
    out = []; new = {}
    for e in ev:
        if e[0] == "mut" and e[2] == "add" and e[1][0] == "op" and e[1][1] == "item": out.append((e[1][3], e[3][0]))
        elif e[0] == "setitem" and e[3][0] == "ref": new[e[3]] = e[2]
        elif e[0] == "mut" and e[2] == "add" and e[1] in new: out.append((new[e[1]], e[3][0]))
        elif e[0] == "mut" and e[2] not in ("add",) and e[1][0] == "op" and e[1][1] == "item": out.append((("op", e[2]), ("op", "?")))
        elif e[0] == "loop":
            if any(links(p.events) for p in e[1].paths): out.append((("op", "loop"), ("op", "?")))
    return out
