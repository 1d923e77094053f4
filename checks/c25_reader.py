"""Path-sensitive value-flow analysis of the Python trace reader (syntax trees): the byte range every section object is
built over, the offset and type of every record an enumerator yields as a function of its position, the condition under
which each enumeration goes on and ends, and the bookkeeping that keeps inputs unique."""
from .py import *
MIN_OBLIGATIONS = 60
MOD = "taint_dag"
def view(cls): h = hdr(cls); return ("view", MEM, fld(h, "offset"), add(fld(h, "offset"), fld(h, "size")))
def index_model(it, st, v, i):
    if i[0] == "cls" and (v[0] == "op" or (v[0] == "ref" and st.heap[v[1]].kind == "dict" and st.heap[v[1]].data[0] is not None)): return [section(it, st, i[2])]
def one_loop(rep, rule, site, it, res, P):
    """the single producing loop of a function all of whose paths end normally"""
    res = produced(it, res)
    bad = [(x, o) for x, o in res if o[0] not in ("return", "next")]
    if not rep.ob(rule, site, not bad, f"fails on the path where {facts(bad[0][0].facts) if bad else ''}", site): return None
    for x, o in res:
        sh = shape(x.ev)
        if not rep.ob(rule, site, len(sh) == 1 and sh[0][0] == "loop", "the records are produced by one loop over the section" if not sh else f"produces {[e[0] for e in sh]}", site): return None
    rep.count("functions"); rep.count("paths", len(res))
    return res[0][0], shape(res[0][0].ev)[0][1]
def records(rep, site, it, res, cls, rec, P):
    """the function yields record k of the section for every k"""
    r = one_loop(rep, "every", site, it, res, P)
    if not r: return
    st, L = r; w = where(MOD, L); h = hdr(cls)
    size = it.P.fields(it.P.mod(MOD).classes[rec])[1]
    for b in total(it, st, L, fld(h, "size"), size): rep.ob("every", site, False, b, w)
    want = ("rec", ("cls", MOD, rec), MEM, add(fld(h, "offset"), scale(("k", L.id), size)))
    for p in L.paths:
        ys = shape(p.events)
        rep.ob("every", site, len(ys) == 1 and ys[0][0] == "yield", f"an iteration yields {len(ys)} records when {facts(p.facts)}", w)
        for y in ys: rep.ob("record", site, y[0] == "yield" and y[1] == want, f"the k-th record is read as {show(y[1])}; it is {show(want)}", w)
def bitmap(rep, site, it, res, cls, P):
    r = one_loop(rep, "every", site, it, res, P)
    if not r: return
    st, L = r; h = hdr(cls); k = ("k", L.id); w = where(MOD, L)
    for b in total(it, st, L, fld(h, "size"), 8): rep.ob("every", site, False, b, w)
    bucket = ("rd", MEM, add(fld(h, "offset"), scale(k, 8)), 8, 0)
    for p in L.paths:
        sh = shape(p.events)
        if not sh:
            rep.ob("bits", site, it.decide(p.st, eqc(bucket, I(0))) is True, f"a bucket is skipped when {facts(p.facts)}, not only when it is zero", w); continue
        if not rep.ob("bits", site, len(sh) == 1 and sh[0][0] == "loop", "the bits of a bucket are produced by one loop", w): continue
        B = sh[0][1]; j = ("k", B.id); bit = band(shr(bucket, j), I(1)); w2 = where(MOD, B)
        for q in B.paths:
            rep.ob("bits", site, q.out[0] in ("next", "continue") and it.ent(q.st, sub(j, I(63))), f"the loop over a bucket's bits goes beyond or stops early ({q.out[0]}) when {facts(q.facts)}", w2)
            ys = shape(q.events); d = it.decide(q.st, eqc(bit, I(0)))
            if ys: rep.ob("bits", site, len(ys) == 1 and d is False and ys[0][1] == add(scale(k, 64), j), f"bit j of bucket k is reported as {show(ys[0][1])} when {facts(q.facts)}; its number is 64*k+j and it is reported exactly when set", w2)
            else: rep.ob("bits", site, d is True, f"a bit is passed over when {facts(q.facts)}", w2)
        for e in B.exits:
            rest = ("op", "shr", bucket, j)
            rep.ob("bits", site, it.ent(e, sub(I(64), j)) or it.decide(e, eqc(rest, I(0))) is True, f"the loop over a bucket's bits ends early: {facts(e.facts[len(B.head.facts):])}", w2)
def check(rep):
    P = program(); c = P.mod(MOD).classes
    rep.assumptions += ["section headers describe ranges inside the file (C08) and the bits of the input-label bitmap are labels of input bytes (C12)", "decode_node and read_string answer as established by C02 and C19"]
    rep.rule("range", "a section object covers exactly [offset, offset+size) of its header")
    rep.rule("every", "every stored record is produced exactly once, in order, and nothing beyond the section")
    rep.rule("record", "the k-th record produced is the k-th stored record, read as its own type")
    rep.rule("bits", "exactly the set bits are reported, by their number")
    rep.rule("headers", "every section header is read and its section object registered under its kind")
    rep.rule("names", "source and function headers carry their stored name, one entry per stored record")
    rep.rule("nodes", "every label's node is produced, once, decoded from that label")
    rep.rule("inputs", "an input is listed once per source that contributed labels, with that source's descriptor, path and size")
    rep.rule("control", "the input bytes reported as affecting control flow are exactly the marked input labels")
    rep.rule("outputs", "every sink record yields one output taint with its own descriptor, offset and label")
    def new(models=None): return Interp(P, models or {})
    # section objects
    S = ["TDSourceSection", "TDLabelSection", "TDStringSection", "TDSinkSection", "TDSourceIndexSection", "TDFunctionsSection", "TDEventsSection", "TDControlFlowLogSection"]
    for s in S:
        it = new(); st, o = section(it, start(P), s)
        vs = [(n, v) for n, v in st.heap[o[1]].data if v[0] == "view"]
        rep.ob("range", s, len(vs) >= 1 and all(v == view(s) for _, v in vs), f"covers {[(n, show(v)) for n, v in vs]}", s)
    for s, m, rec in (("TDSourceSection", "enumerate", "TDFDHeader"), ("TDSinkSection", "enumerate", "TDSink"), ("TDFunctionsSection", "__iter__", "TDFnHeader"), ("TDEventsSection", "__iter__", "TDEvent")):
        it = new(); st, o = section(it, start(P), s); records(rep, f"{s}.{m}", it, it.run(MOD, s, m, [o], st=st), s, rec, P)
    s = "TDSourceIndexSection"; it = new(); st, o = section(it, start(P), s); bitmap(rep, f"{s}.enumerate_set_bits", it, it.run(MOD, s, "enumerate_set_bits", [o], st=st), s, P)
    s = "TDLabelSection"; h = hdr(s); lbl = ("nn", "label")
    it = new(); st, o = section(it, start(P), s)
    for x, out in it.run(MOD, s, "read_raw", [o, lbl], st=st):
        rep.ob("record", f"{s}.read_raw", out[0] == "return" and out[1] == ("rd", MEM, add(fld(h, "offset"), scale(lbl, 8)), 8, 0), f"label l is read as {show(out[1]) if len(out) > 1 else out}", s)
    it = new(); st, o = section(it, start(P), s)
    for x, out in it.run(MOD, s, "count", [o], st=st):
        rep.ob("every", f"{s}.count", out[0] == "return" and out[1] == fdiv(fld(h, "size"), I(8)), f"counts {show(out[1]) if len(out) > 1 else out}", s)
    file_object(rep, P, new); trace(rep, P, new)
def file_object(rep, P, new):
    site = "TDFile.__init__"
    it = new({"mmap": const_model(MEM), "index": index_model, ("TDStringSection", "read_string"): lambda it, st, self, a, k: [(st, ("op", "name", a[0]))]})
    st = start(P); self = it.inst(st, P.mod(MOD).classes["TDFile"])
    res = it.run(MOD, "TDFile", "__init__", [self, ("op", "param", "file")], st=st); rep.count("functions"); rep.count("paths", len(res))
    good = normal(res)
    if not rep.ob("headers", site, len(good) >= 1, "no path ends normally", site): return
    meta, smeta = P.fields(P.mod(MOD).classes["TDFileMeta"]), P.fields(P.mod(MOD).classes["TDSectionMeta"])
    cnt = next(("rd", MEM, I(o), w, sg) for n, o, w, sg in meta[0] if n == "section_count")
    fo = {n: (o, w, sg) for n, o, w, sg in smeta[0]}
    x = good[0][0]
    seen_tags = {}
    loops = [e[1] for e in x.ev if e[0] == "loop" and any(ev[0] == "setitem" and ev[2][0] == "cls" for p in e[1].paths for ev in p.events)]
    if not rep.ob("headers", site, len(loops) == 1, f"{len(loops)} loops register sections", site): return
    L = loops[0]; k = ("k", L.id); w = where(MOD, L)
    def hf(n): o, wd, sg = fo[n]; return ("rd", MEM, add(scale(k, smeta[1]), I(meta[1] + o)), wd, sg)
    for p in L.paths:
        rep.ob("headers", site, it.ent(p.st, add(sub(k, cnt), I(1))), f"a section header beyond the recorded count is read: {facts(p.facts)}", w)
        if p.out[0] == "raise": continue
        rep.ob("headers", site, p.out[0] in ("next", "continue"), f"the headers after one are not read when {facts(p.facts)}", w)
        sets = [e for e in p.events if e[0] == "setitem" and e[2][0] == "cls"]
        if not rep.ob("headers", site, len(sets) == 1, f"{len(sets)} section objects are registered when {facts(p.facts)}", w): continue
        o = it.obj(p.st, sets[0][3]); cn = sets[0][2][2]
        rep.ob("headers", site, o is not None and o.cls.name == cn, f"registered as {cn} but is {o.cls.name if o is not None else show(sets[0][3])}", w)
        vs = [v for n, v in (o.data if o is not None else ()) if v[0] == "view"]
        want = ("view", MEM, hf("offset"), add(hf("offset"), hf("size")))
        rep.ob("range", site, len(vs) >= 1 and all(v == want for v in vs), f"{cn} is built over {[show(v) for v in vs]}; its header says {show(want)}", w)
        tags = [t for t in range(0, 64) if it.decide(p.st, eqc(hf("tag"), I(t))) is True]
        rep.ob("headers", site, len(tags) == 1 and cn not in seen_tags, f"{cn} is chosen when {facts(p.facts)}", w)
        if tags: seen_tags[cn] = tags[0]
    for e in L.exits: rep.ob("headers", site, it.ent(e, sub(cnt, k)), f"reading headers can end early: {facts(e.facts[len(L.head.facts):])}", w)
    # names
    for attr, cls, rec, wrap in (("fd_headers", "TDSourceSection", "TDFDHeader", True), ("fn_headers", "TDFunctionsSection", "TDFnHeader", False)):
        for x, _ in good:
            v = attr_in(x.heap[self[1]], attr); ok = v is not None and v[0] == "ref" and x.heap[v[1]].kind == "list"
            if not rep.ob("names", f"TDFile.{attr}", ok, f"is {show(v) if v else 'not set'}", site): continue
            sh = shape(yields_of(x.ev, v))
            if not rep.ob("names", f"TDFile.{attr}", len(sh) == 1 and sh[0][0] == "loop", f"filled by {[e[0] for e in sh]}", site): continue
            L = sh[0][1]; h = hdr(cls); size = P.fields(P.mod(MOD).classes[rec])[1]; w = where(MOD, L)
            for b in total(it, x, L, fld(h, "size"), size): rep.ob("names", f"TDFile.{attr}", False, b, w)
            r = ("rec", ("cls", MOD, rec), MEM, add(fld(h, "offset"), scale(("k", L.id), size)))
            nm = ("op", "name", it.field(r, "name_offset"))
            want = ("tup", ((("op", "new", "Path", (nm,), ()) if wrap else nm), r))
            for p in L.paths:
                ys = shape(p.events)
                rep.ob("names", f"TDFile.{attr}", len(ys) == 1 and ys[0][1] == want or (len(ys) == 1 and ys[0][0] == "yield" and ys[0][1][0] == "tup" and len(ys[0][1][1]) == 2 and ys[0][1][1][1] == r and (ys[0][1][1][0] == nm if not wrap else ys[0][1][1][0][0] == "op" and ys[0][1][1][0][1] == "new" and ys[0][1][1][0][2].endswith("Path") and ys[0][1][1][0][3] == (nm,))),
                       f"entry k is {show(ys[0][1]) if ys and ys[0][0] == 'yield' else ys}; expected {show(want)}", w)
    # accessors
    def tdfile(it):
        st = start(P); d = []
        for s in ("TDSourceSection", "TDLabelSection", "TDStringSection", "TDSinkSection", "TDSourceIndexSection", "TDFunctionsSection", "TDEventsSection", "TDControlFlowLogSection"):
            st, o = section(it, st, s); d.append((("cls", MOD, s), o))
        o = good[0][0].heap[self[1]]
        at = {n: v for n, v in o.data if v[0] in ("i", "c")}
        me = it.inst(st, P.mod(MOD).classes["TDFile"], **at)
        byt = next((n for n, v in o.data for e in good[0][0].ev if e[0] == "loop" for p in e[1].paths for q in p.events if q[0] == "setitem" and q[1] == v and q[2][0] == "cls"), None)
        ref = it.new(st, "dict", None, (None, tuple(d)))
        extra = {byt: ref, "buffer": MEM}
        for n, v in o.data:
            if v[0] == "ref" and n not in extra: extra[n] = it.new(st, "dict", None, (("op", "cache", n), ())) if good[0][0].heap[v[1]].kind == "dict" else ("op", "attr", TD, n)
        for n, v in extra.items(): it.setattr(st, me, n, v)
        st.ev = (); return st, me
    for m, cls, rec in (("sinks", "TDSinkSection", "TDSink"), ("events", "TDEventsSection", "TDEvent")):
        it = new(); st, me = tdfile(it); records(rep, f"TDFile.{m}", it, it.run(MOD, "TDFile", m, [me], st=st), cls, rec, P)
    it = new(); st, me = tdfile(it); bitmap(rep, "TDFile.input_labels", it, it.run(MOD, "TDFile", "input_labels", [me], st=st), "TDSourceIndexSection", P)
    count = fdiv(fld(hdr("TDLabelSection"), "size"), I(8))
    it = new(); st, me = tdfile(it)
    for x, o in it.run(MOD, "TDFile", "label_count", [me], st=st): rep.ob("every", "TDFile.label_count", o == ("return", count), f"is {show(o[1]) if len(o) > 1 else o}", "TDFile.label_count")
    # cached raw nodes
    it = new(); st, me = tdfile(it); lbl = ("nn", "label"); raw = ("rd", MEM, add(fld(hdr("TDLabelSection"), "offset"), scale(lbl, 8)), 8, 0)
    for x, o in it.run(MOD, "TDFile", "read_node", [me, lbl], st=st):
        hit = [c for c, b in x.facts if b and c[0] == "in" and c[1] == lbl]
        ok = o[0] == "return" and (o[1] == raw or (bool(hit) and o[1] == ("op", "item", hit[0][2], lbl)))
        rep.ob("record", "TDFile.read_node", ok, f"label l reads as {show(o[1]) if len(o) > 1 else o} when {facts(x.facts)}", "TDFile.read_node")
        for e in x.ev:
            if e[0] == "setitem": rep.ob("record", "TDFile.read_node", e[2] == lbl and e[3] == raw, f"remembers {show(e[3])} for {show(e[2])}", "TDFile.read_node")
    # nodes
    it = new({("TDFile", "decode_node"): lambda it, st, self, a, k: [(st, ("op", "node", a[0]))], ("TDFile", "label_count"): prop(const_model(("nn", "count")))})
    st, me = tdfile(it); res = produced(it, it.run(MOD, "TDFile", "nodes", [me], st=st))
    for x, o in res:
        sh = shape(x.ev)
        if not rep.ob("nodes", "TDFile.nodes", o[0] in ("return", "next") and len(sh) == 1 and sh[0][0] == "loop", f"{o[0]}; produces {[e[0] for e in sh]}", "TDFile.nodes"): continue
        L = sh[0][1]; w = where(MOD, L)
        for b in total(it, x, L, sub(("nn", "count"), I(1)), 1): rep.ob("nodes", "TDFile.nodes", False, b, w)
        for p in L.paths:
            ys = shape(p.events)
            rep.ob("nodes", "TDFile.nodes", len(ys) == 1 and ys[0][1] == ("op", "node", add(("k", L.id), I(1))), f"the k-th node (from label 1) is {show(ys[0][1]) if ys and ys[0][0] == 'yield' else ys}", w)
LABELS = ("op", "INPUT_LABELS")
def trace(rep, P, new):
    def src_decode(it, st, self, args, kw):
        x = st.copy(); l = args[0]
        if l[0] == "op" and l[1] == "elem" and l[2] == LABELS and (("kind", l, "TDSourceNode"), True) not in x.facts: x.facts = x.facts + ((("kind", l, "TDSourceNode"), True),)
        return decode_model(it, x, self, args, kw)
    base = {("TDFile", "decode_node"): src_decode, ("TDFile", "input_labels"): const_model(LABELS), ("TDFile", "sinks"): prop(const_model(("op", "SINKS")))}
    def me(it, **kw):
        st = start(P); o = it.inst(st, P.mod(MOD).classes["TDProgramTrace"], tdfile=TD, tforest=("obj", MOD, "TDTaintForest", "forest"), _inputs=("c", None)); return st, o
    def inp(d, idx):
        """is d the Input of source idx?"""
        if d[0] != "inst" or d[1] != "Input": return False
        a = dict(d[2]); e = fdh(idx); path, h = ("op", "item", e, I(0)), ("op", "item", e, I(1))
        return a.get("uid") == ("op", "attr", h, "fd") and a.get("path") == ("op", "new", "str", (path,), ()) and a.get("size") == ("op", "attr", h, "size")
    it = new(base); st, o = me(it); site = "TDProgramTrace.inputs"
    for x, out in produced(it, it.run(MOD, "TDProgramTrace", "inputs", [o], st=st)):
        sh = shape(x.ev)
        if not rep.ob("inputs", site, out[0] in ("return", "next") and len(sh) == 1 and sh[0][0] == "loop", f"{out[0]} when {facts(x.facts)}", site): continue
        L = sh[0][1]; w = where(MOD, L); lbl = ("op", "elem", LABELS, ("k", L.id)); idx = nattr(lbl, "idx")
        rep.count("functions"); rep.count("paths", len(L.paths))
        rep.ob("inputs", site, L.iter == LABELS or L.cond == ("more", LABELS, ("k", L.id)), f"goes over {L.iter}, not over the input labels", w)
        # the set of sources already listed
        boxes = {c[2] for p in L.paths for c, b in p.facts if c[0] == "in" and c[1] == idx}
        if not rep.ob("inputs", site, len(boxes) == 1, "whether a source was listed before is not decided by one collection", w): continue
        box = next(iter(boxes))
        ref = next((r for r, ob in L.head.heap.items() if (ob.kind in ("set", "list") and ob.data == box) or (ob.kind == "dict" and ob.data[0] == box)), None)
        e0 = L.entry.heap.get(ref)
        rep.ob("inputs", site, e0 is not None and e0.data in ((), (None, ())), f"the collection of listed sources starts as {e0}", w)
        for p in L.paths:
            was = it.decide(p.st, ("in", idx, box)); ys = shape(p.events)
            rep.ob("inputs", site, p.out[0] in ("next", "continue"), f"listing stops early ({p.out[0]}) when {facts(p.facts)}", w)
            end = p.st.heap.get(ref)
            if was is True: rep.ob("inputs", site, not ys, "an input is listed again", w)
            elif rep.ob("inputs", site, len(ys) == 1 and ys[0][0] == "yield" and inp(ys[0][2], idx), f"a new source yields {[show(y[1]) for y in ys]} {ys[0][2] if ys else ''}", w):
                rep.ob("inputs", site, end is not None and (end.data == box + (("item", idx),) if end.kind != "dict" else end.data[0] == box and any(k == idx for k, _ in end.data[1])), "the source is not remembered as listed (or another one is)", w)
    # outputs
    it = new(base); st, o = me(it); site = "TDProgramTrace.output_taints"
    for x, out in produced(it, it.run(MOD, "TDProgramTrace", "output_taints", [o], st=st)):
        sh = shape(x.ev)
        if not rep.ob("outputs", site, out[0] in ("return", "next") and len(sh) == 1 and sh[0][0] == "loop", f"{out[0]} when {facts(x.facts)}", site): continue
        L = sh[0][1]; w = where(MOD, L); s = ("op", "elem", ("op", "SINKS"), ("k", L.id)); rep.count("functions")
        for p in L.paths:
            ys = shape(p.events); ok = len(ys) == 1 and ys[0][0] == "yield" and ys[0][2][0] == "inst" and p.out[0] in ("next", "continue")
            if ok:
                a = dict(ys[0][2][2]); ok = a.get("offset") == ("op", "attr", s, "offset") and a.get("label") == ("op", "attr", s, "label") and inp(a.get("source", ("c", 0)), ("op", "attr", s, "fdidx"))
            rep.ob("outputs", site, ok, f"sink k yields {ys[0][2] if ys else 'nothing'} when {facts(p.facts)}", w)
    # control flow
    def get_node(it, st, self, args, kw):
        x = st.copy(); l = args[0]; x.facts = x.facts + ((("isnone", ("op", "source", l)), False),)
        return [(x, it.inst(x, P.mod(MOD).classes["TDTaintForestNode"], label=l, source=("op", "source", l), affected_control_flow=mark(l)))]
    it = new({**base, ("TDTaintForest", "get_node"): get_node, ("Taints", "()"): lambda it, st, self, a, k: [(st, a[0])]}); st, o = me(it); site = "TDProgramTrace.inputs_affecting_control_flow"
    for x, out in produced(it, [(y, q) for y, q in it.run(MOD, "TDProgramTrace", "inputs_affecting_control_flow", [o], st=st)]):
        sh = shape(x.ev)
        if not rep.ob("control", site, out[0] in ("return", "next") and len(sh) == 1 and sh[0][0] == "loop", f"{out[0]} when {facts(x.facts)}", site): continue
        L = sh[0][1]; w = where(MOD, L); lbl = ("op", "elem", LABELS, ("k", L.id)); rep.count("functions"); rep.count("paths", len(L.paths))
        rep.ob("control", site, L.cond == ("more", LABELS, ("k", L.id)), f"goes over {L.iter}, not over the input labels", w)
        for p in L.paths:
            m = it.decide(p.st, ("truthy", mark(lbl))); ys = shape(p.events)
            rep.ob("control", site, p.out[0] in ("next", "continue"), f"stops early ({p.out[0]}) when {facts(p.facts)}", w)
            if ys:
                a = dict(ys[0][2][2]) if ys[0][0] == "yield" and ys[0][2][0] == "inst" else {}
                src = a.get("source"); own = src == ("op", "source", lbl) or (src is not None and inp(src, nattr(lbl, "idx")))
                rep.ob("control", site, len(ys) == 1 and m is True and own and a.get("offset") == nattr(lbl, "offset") and a.get("length", I(1)) == I(1), f"reports {ys[0][2:3]} when {facts(p.facts)}", w)
            else: rep.ob("control", site, m is False, f"reports nothing when {facts(p.facts)}", w)
