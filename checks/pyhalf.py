"""The reader's half of properties that a writer and a reader share (syntax trees of the Python reader)."""
from .py import *
MOD = "taint_dag"
# ---- stored names
def string_reader(rep, pre):
    """pre: width of the length prefix the writer stores, in bytes"""
    P = program(); it = Interp(P); st = start(P); site = "TDStringSection.read_string"
    st, me = section(it, st, "TDStringSection"); h = hdr("TDStringSection"); off = ("nn", "offset")
    lo, size = fld(h, "offset"), fld(h, "size"); at = add(lo, off)
    n = ("rd", MEM, at, pre, False)
    st.facts += ((le(add(off, I(pre)), size), True), (le(I(0), size), True), (le(I(0), lo), True))
    res = it.run(MOD, "TDStringSection", "read_string", [me, off], st=st); rep.count("methods"); rep.count("paths", len(res)); ok = 0
    for x, o in res:
        inside = it.decide(x, le(add(add(off, I(pre)), n), size))
        if o[0] != "return":
            rep.ob("reader", site, inside is False, f"fails ({o[0]}) on a name that lies inside the table: {facts(x.facts)}", site); continue
        if inside is False: continue
        ok += 1; want = ("view", MEM, add(at, I(pre)), add(add(at, I(pre)), n)); got, total = text_of(o[1])
        if got == want: rep.ob("reader", site, total, "a name that is not valid UTF-8 (file names are arbitrary bytes) cannot be read", site)
        rep.ob("reader", site, got == want, f"reads {show(o[1])} as the name at an offset; expected the {pre}-byte length and then exactly that many bytes", site)
    rep.ob("reader", site, ok > 0, "never reads a name", site)
def text_of(v):
    """(bytes a text value was decoded from, whether any bytes can be decoded and told apart)"""
    if v[0] == "view": return v, True
    if v[0] == "op" and v[1] == "new" and v[2] == "str" and len(v) > 3:
        a = list(v[3]); kw = dict(v[4]) if len(v) > 4 and v[4] else {}
        if len(a) < 2 and "encoding" in kw: a.append(kw["encoding"])
        if len(a) < 3 and "errors" in kw: a.append(kw["errors"])
        if len(a) >= 2 and a[1][0] == "c" and str(a[1][1]).lower().replace("-", "").replace("_", "") == "utf8":
            return a[0], len(a) > 2 and a[2] == ("c", "surrogateescape")
    if v[0] == "op" and v[1] == "new" and str(v[2]).split(".")[-1] == "fsdecode" and len(v[3]) == 1: return v[3][0], True
    return None, False
# ---- stored taints
FIELDS = {"TDSourceNode": ("idx", "offset"), "TDRangeNode": ("first", "last"), "TDUnionNode": ("left", "right")}
SIZES = {"TDSourceNode": (8, 54), "TDRangeNode": (31, 31), "TDUnionNode": (31, 31)}
def known_bit(st, v, i, one):
    """the i-th bit of v is known, in the forms a program may test it"""
    for f in (("bits", ((v, i, 1, 0),)), ("bits", ((v, i, 1, i),))):
        st.facts += ((("eq0", f), not one),)
        if one: st.facts += ((("le0", sub(I(1), f)), True),)
def node_reader(rep, kd, stored, decided):
    """stored: per bit of the 64-bit value 0, 1 or (parameter, bit); parameters 0 and 1 are the fields, 2 the mark"""
    P = program(); site = f"TDFile.decode_node({kd})"; v = ("rd", ("op", "stored"), I(0), 8, False); lbl = ("nn", "label")
    pos = {}
    for i, b in enumerate(stored):
        if isinstance(b, tuple): pos.setdefault(b[0], {})[b[1]] = i
    want = [mkbits([(v, i, 1, k) for k, i in pos.get(f, {}).items()]) for f in (0, 1)]
    if not rep.ob("reader", site, all(sorted(pos.get(f, {})) == list(range(n)) for f, n in enumerate(SIZES[kd])), "a field is not stored completely", site): return
    def raw(it, st, self, a, k): return [(st, v)]
    it = Interp(P, {("TDFile", "read_node"): raw, ("TDFile", "read_fd_headers"): const_model(("op", "FDH")), ("TDFile", "read_fn_headers"): const_model(("op", "FNH"))}); st = start(P)
    me = it.inst(st, P.mod(MOD).classes["TDFile"])
    inits = [x for x, o in it.run(MOD, "TDFile", "__init__", [me, ("op", "file")], st=st) if o[0] == "return"]
    if not inits: raise AnalysisBroken("TDFile cannot be constructed")
    st = inits[0].copy(); st.ev = (); st.facts = ()
    r = it.run(MOD, "TDFile", "decode_node", [me, I(0)], st=st)
    rep.ob("reader", "TDFile.decode_node(0)", len(r) == 1 and r[0][1][0] == "return" and it.deep(r[0][0], r[0][1][1])[:2] == ("inst", "TDUntaintedNode"), "label 0 is not reported as untainted", site)
    for cf in (0, 1):
        if 2 in decided and decided[2] != cf: continue
        s = st.copy(); s.facts += ((("le0", sub(I(1), lbl)), True),)
        for i, b in enumerate(stored):
            if b in (0, 1) and (b == 1 or i >= 62): known_bit(s, v, i, b == 1)
        for k, i in pos.get(2, {}).items(): known_bit(s, v, i, cf == 1)
        if kd != "TDSourceNode": s.facts += ((("le0", add(sub(want[0], want[1]), I(1))), True),)
        res = it.run(MOD, "TDFile", "decode_node", [me, lbl], st=s); rep.count("paths", len(res))
        for x, o in res:
            d = it.obj(x, o[1]) if o[0] == "return" else None
            if not rep.ob("reader", site, d is not None and d.kind == "inst" and d.cls.name == kd, f"is read as {d.cls.name if d is not None and d.cls else o[0]} when {facts(x.facts[len(s.facts):])}", site): continue
            a = dict(d.data); got = [a.get(f) for f in FIELDS[kd]]
            ok = got == want or (kd == "TDUnionNode" and got == want[::-1])
            rep.ob("reader", site, ok, f"{', '.join(FIELDS[kd])} are read as {[show(g) if g else g for g in got]}; stored in {[show(w) for w in want]}", site)
            m = a.get("affects_control_flow"); c = it.truth(x, m) if m is not None else None
            t = None if c is None else it.decide(x, c)
            rep.ob("reader", site, t is bool(cf), f"the control-flow mark {cf} is read as {t}", site)
# ---- control-flow log
def bit7(it, st, b):
    r = it.decide(st, ("eq0", band(b, I(0x80))))
    if r is None: r = True if it.ent(st, sub(b, I(127))) else False if it.ent(st, sub(I(128), b)) else None
    return None if r is None else not r
def joined(v, acc, part):
    return v in (("op", "or", acc, part), ("op", "or", part, acc), add(acc, part), bor(acc, part), bor(part, acc))
def number(it, p, J, ended, q, base):
    """is the loop J a decoder of the number stored from q on?  -> (complaint, value(st) predicate, position after)"""
    k = ("k", J.id); b = ("rd", base, add(q, k), 1, False); part = shl(band(b, I(0x7F)), scale(k, 7))
    accs = [key for key, v in it.vars(J.entry).items() if key[0] == "v" and v == I(0) and it.vars(J.head).get(key) == ("op", "lv", J.id, key)]
    for key in accs:
        acc = ("op", "lv", J.id, key); good = True
        for z in J.paths:
            t = bit7(it, z.st, b)
            if z.out[0] in ("next", "continue"): good &= t is True and joined(it.vars(z.st)[key], acc, part)
            else: good &= t is False
        if good: return None, lambda v: joined(v, acc, part), add(add(q, k), I(1))
    return f"the bytes from {show(q)} on are not decoded as 7-bit groups, least significant first, up to the first byte without its high bit", None, None
def leave_only(it, L, wk, F, rep, site, w):
    """a loop that takes functions off the call stack until F is on top"""
    for z in L.paths:
        s = z.st; hd = L.head.heap[wk].data; top = top_of(it, L.head, wk)
        rep.ob("order", site, it.decide(s, eqc(top, F)) is False or (F is not None and top == F and False), f"functions other than those above the one logged are dropped when {facts(z.facts)}", w)
        ys = shape(z.events)
        ok = len(ys) == 1 and ys[0][0] == "yield" and event(it, s, ys[0], L.head, wk) == ("TDLeaveFunctionEvent", hd, None)
        rep.ob("order", site, ok, "dropping a function from the call stack is not reported as leaving it", w)
        rep.ob("order", site, s.heap[wk].data == (("unk", ("op", "rest", hd[0][1], "last")),) and z.out[0] in ("next", "continue"), "does not drop exactly the top of the call stack", w)
def top_of(it, st, wk):
    d = st.heap[wk].data
    if d and d[-1][0] == "item": return d[-1][1]
    if len(d) == 1 and d[0][0] == "unk": return ("op", "item", d[0][1], I(-1))
    return None
def event(it, st, y, head, wk):
    """(class, call stack contents, label) of a yielded event; None when the call stack it carries may change later"""
    o = it.obj(st, y[1])
    if o is None or o.kind != "inst": return None
    a = dict(o.data); cs = a.get("callstack"); snap = dict(y[2][2]).get("callstack") if y[2][0] == "inst" else None
    if cs is None or snap is None: return None
    if cs[0] == "ref":
        if cs[1] in head.heap: return None                      # the list the reader keeps working on
        for i, fr in enumerate(st.frames):
            for n, v in fr.items():
                if not n.startswith("__") and i < len(head.frames) and n in head.frames[i] and cs[1] in it.refs(st, v): return None
        data = tuple(snap[1])
    else: return None
    return (o.cls.name, data, a.get("label"))
KIND = {"enter_function": "TDEnterFunctionEvent", "leave_function": "TDLeaveFunctionEvent", "tainted_control_flow": "TDTaintedControlFlowEvent"}
def cflog_reader(rep, kinds):
    """kinds: event name -> number the writer stores"""
    rep.rule("parse", "the reader decodes the kind, the function number and the label from the bytes the writer stored, and goes on with the next entry")
    rep.rule("events", "the event yielded has the class of the stored kind, the stored function on top of its call stack and the stored label")
    rep.rule("order", "one event per entry, in the order stored; functions dropped from the call stack are reported as left")
    P = program()
    for named in (False, True): reader(rep, P, {c: next((k for n, k in KIND.items() if n in m), None) for m, c in kinds.items()}, named)
def reader(rep, P, kinds, named):
    it = Interp(P); st = start(P); cls = "TDControlFlowLogSection"; site = cls + (".__iter__ with names" if named else ".__iter__")
    st, me = section(it, st, cls); h = hdr(cls); lo = fld(h, "offset"); end = add(lo, fld(h, "size")); names = ("op", "NAMES"); st.facts += ((("isnone", names), False),)
    st.facts += ((le(I(0), fld(h, "size")), True),)
    if named:
        r = it.run(MOD, cls, "function_id_mapping", [me, names], st=st)
        if not rep.ob("events", site, len(r) == 1 and r[0][1][0] == "return", "the mapping of function numbers to names is not accepted", site): return
        st = r[0][0].copy(); st.ev = ()
    res = produced(it, it.run(MOD, cls, "__iter__", [me], st=st)); rep.count("methods"); rep.count("paths", len(res))
    num_of = {v: k for k, v in kinds.items()}
    for x, o in res:
        sh = shape(x.ev)
        if not rep.ob("order", site, o[0] in ("return", "next") and sh and sh[0][0] == "loop", f"{o[0]}; events come from {[e[0] for e in sh]}", site): continue
        L = sh[0][1]; w = where(MOD, L)
        for e in sh[1:]:
            bad = [y for z in (e[1].paths if e[0] == "loop" else []) for y in shape(z.events) if y[0] != "yield" or it.obj(z.st, y[1]) is None or it.obj(z.st, y[1]).cls.name != "TDLeaveFunctionEvent"]
            rep.ob("order", site, e[0] == "loop" and not bad, "events other than leaving functions are added after the last entry", w)
        wks = [r for r, ob in L.head.heap.items() if ob.kind == "list" and L.entry.heap[r].data == () and len(ob.data) == 1 and ob.data[0][0] == "unk"]
        if not rep.ob("order", site, len(wks) == 1, "no call stack that starts empty", w): continue
        wk = wks[0]; seen = set(); X = None
        for p in body(L):
            rep.count("paths"); X = X or first_byte(it, p, kinds)
        if not rep.ob("parse", site, X is not None, "no byte read decides the kind of an entry", w): continue
        ent = dict(it.vars(L.entry)); rep.ob("parse", site, at_state(it, X, L.entry, L.id) == lo, f"reading starts at {show(at_state(it, X, L.entry, L.id))}, not at the start of the section", w)
        for e in stops(L): rep.ob("parse", site, it.ent(e, sub(end, X)), f"reading can end before the section does: {facts(e.facts[len(L.head.facts):])}", w)
        kb = ("rd", MEM, X, 1, False)
        for p in body(L):
            rep.ob("parse", site, it.ent(p.st, add(sub(X, end), I(1))), f"reads an entry beyond the section when {facts(p.facts)}", w)
            cand = [c for c in kinds if it.decide(p.st, eqc(kb, I(c))) is not False]
            if not cand: continue
            if not rep.ob("events", site, len(cand) == 1, f"entries of kinds {cand} are not told apart when {facts(p.facts)}", w): continue
            kd = kinds[cand[0]]
            # numbers, in the order stored
            loops = [(e[1], any(f[0] == "iter" and f[1].id == e[1].id for f in p.events)) for e in p.events if e[0] == "loop" and not shape((e,))]
            q = add(X, I(1)); vals = []; cut = False
            for J, ended in loops:
                if not ended:
                    cut = it.ent(p.st, sub(end, add(q, ("K", J.id)))) or (not J.paths and it.ent(p.st, sub(end, q)))
                    if not cut: rep.ob("parse", site, False, f"decoding a number can stop in the middle when {facts(p.facts)}", w)
                    break
                bad, is_val, q2 = number(it, p, J, ended, q, MEM)
                if not rep.ob("parse", site, bad is None, bad, where(MOD, J)): break
                vals.append(is_val); q = q2
            else:
                need = 2 if kd == "TDTaintedControlFlowEvent" else 1
                if not rep.ob("parse", site, len(vals) == need, f"an entry of kind {cand[0]} is read as {len(vals)} numbers, not {need}", w): continue
                if not rep.ob("parse", site, p.out[0] in ("next", "continue"), f"reading stops ({p.out[0]}) at an entry of kind {cand[0]} when {facts(p.facts)}", w): continue
                seen.add(kd)
                nx = at_state(it, X, p.st, L.id); rep.ob("parse", site, nx == q, f"the next entry is read at {show(nx)}; this one ends at {show(q)}", w)
                check_event(rep, it, L, p, wk, kd, vals, names if named else None, site, w)
        for kd in kinds.values(): rep.ob("events", site, kd in seen, f"{kd} is never produced", w)
def check_event(rep, it, L, p, wk, kd, vals, names, site, w):
    ys = shape(p.events)
    if not rep.ob("order", site, ys and ys[-1][0] == "yield" and all(y[0] == "loop" for y in ys[:-1]), f"an entry of kind {kd} produces {[y[0] for y in ys]}", w): return
    y = ys[-1]; ev = event(it, p.st, y, L.head, wk)
    if not rep.ob("events", site, ev is not None, "the call stack of an event is the list the reader keeps changing (or is missing)", w): return
    rep.ob("events", site, ev[0] == kd, f"an entry of kind {kd} is reported as {ev[0]}", w)
    def is_f(v):
        if names is not None:
            if not (v[0] == "op" and v[1] == "item" and v[2] == names): return False
            v = v[3]
        return vals[0](v)
    d = ev[1]; hd = L.head.heap[wk].data; end = p.st.heap[wk].data
    if kd == "TDEnterFunctionEvent":
        ok = len(d) == len(hd) + 1 and d[:-1] == hd and d[-1][0] == "item" and is_f(d[-1][1])
        rep.ob("events", site, ok and end == d and len(ys) == 1, f"entering a function makes the call stack {[show(s[1]) for s in d]}", w); return
    cur = L.head
    top = None
    if d and d[-1][0] == "item": top = d[-1][1] if is_f(d[-1][1]) else None
    elif len(d) == 1 and d[0][0] == "unk":
        t = ("op", "item", d[0][1], I(-1))
        for c, b in p.st.facts:
            if c[0] == "eq0" and b:
                for s in (1, -1):
                    f = add(t, scale(c[1], -s))
                    if is_f(f): top = f
            elif c[0] == "same" and b and t in c[1:]: top = next((f for f in c[1:] if f != t and is_f(f)), top)
    rep.ob("events", site, top is not None, f"the function logged is not on top of the call stack reported when {facts(p.facts)}", w)
    for e in ys[:-1]: 
        F = next((f for z in e[1].paths for f in compared(z, e[1].head, wk) if is_f(f)), None)
        if rep.ob("order", site, F is not None, "functions are dropped without regard to the one logged", w): leave_only(it, e[1], wk, F, rep, site, w)
    if kd == "TDLeaveFunctionEvent":
        want = (("unk", ("op", "rest", d[0][1], "last")),) if d and d[-1][0] == "unk" and len(d) == 1 else d[:-1]
        rep.ob("events", site, end == want, f"after leaving a function the call stack is {[show(s[1]) for s in end]}", w)
    else:
        rep.ob("events", site, ev[2] is not None and vals[1](ev[2]), f"the label reported is {show(ev[2]) if ev[2] else ev[2]}", w)
        rep.ob("events", site, end == d, "a tainted branch changes the call stack", w)
def compared(z, head, wk):
    """terms the top of the call stack is compared with on a path"""
    d = head.heap[wk].data
    t = ("op", "item", d[0][1], I(-1)) if len(d) == 1 and d[0][0] == "unk" else None
    out = []
    for c, b in z.facts:
        if t is None: break
        if c[0] == "eq0": out += [add(t, scale(c[1], -1)), add(t, c[1])]
        elif c[0] in ("same", "eq") and t in c[1:]: out += [f for f in c[1:] if f != t]
    return out
def first_byte(it, p, kinds):
    """address of the byte whose value selects the kind"""
    for c, b in p.facts:
        if c[0] == "eq0":
            for a in parts(c[1])[1] if c[1][0] == "i" else {c[1]: 1}:
                if a[0] == "rd" and a[1] == MEM and a[3] == 1: return a[2]
    return None
def at_state(it, X, st, L):
    """the term X over the loop's variables, evaluated in another state"""
    vs = it.vars(st); c, d = parts(X); r = I(c)
    for a, k in d.items():
        if a[0] == "op" and a[1] == "lv" and a[2] == L:
            key = a[3]; v = vs.get(key[:3])
            if v is not None and len(key) > 3: v = v[{"lo": 2, "hi": 3}[key[3]]] if v[0] == "view" and key[3] in ("lo", "hi") else None
            if v is None: return ("op", "unknown")
            r = add(r, scale(v, k))
        elif a == ("k", L): return ("op", "unknown")
        else: r = add(r, scale(a, k))
    return r
