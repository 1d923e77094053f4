"""Agreement of two layouts computed from the sources: where the analysed C++ puts every field of every record and header
(byte offsets of the stores, sizes, field types) and where the ctypes declarations of the reader look for it; and agreement
of the section tags the constructor writes with the tags the reader's dispatch decides on."""
from . import core, tracefile as T
from .rt import *
from . import py
from engine import pyai
MIN_OBLIGATIONS = 60
MOD = "taint_dag"
# witness -> (reader's class, [(parameter, field of the reader, constant telling its signedness)])
RECORDS = {
 "w_source_entry": ("TDFDHeader", [(1, "name_offset", "w_signed_src_name"), (2, "fd", "w_signed_src_fd"), (3, "size", "w_signed_src_size")]),
 "w_sink_entry": ("TDSink", [(1, "offset", "w_signed_snk_off"), (2, "label", "w_signed_snk_lbl"), (3, "fdidx", "w_signed_snk_idx")]),
 "w_event_entry": ("TDEvent", [(1, "fnidx", "w_signed_ev_fn")]),
 "w_event_exit": ("TDEvent", [(1, "fnidx", "w_signed_ev_fn")]),
 "w_function": ("TDFnHeader", [(1, "name_offset", None)]),
}
KINDS = {"Sources": "TDSourceSection", "Labels": "TDLabelSection", "StringTable": "TDStringSection", "TaintSink": "TDSinkSection", "SourceIndexBits": "TDSourceIndexSection",
         "Functions": "TDFunctionsSection", "Events": "TDEventsSection", "ControlFlowLog": "TDControlFlowLogSection"}
def dispatch(P):
    """{tag: reader class} that TDFile chooses for a header carrying that tag, and the tags it refuses"""
    it = pyai.Interp(P, {"mmap": py.const_model(py.MEM), "index": lambda it, st, v, i: [py.section(it, st, i[2])] if i[0] == "cls" and v[0] in ("op", "ref") and (v[0] == "op" or (st.heap[v[1]].kind == "dict" and st.heap[v[1]].data[0] is not None)) else None,
                         ("TDStringSection", "read_string"): lambda it, st, self, a, k: [(st, ("op", "name", a[0]))]})
    st = py.start(P); self = it.inst(st, P.mod(MOD).classes["TDFile"])
    meta, smeta = P.fields(P.mod(MOD).classes["TDFileMeta"]), P.fields(P.mod(MOD).classes["TDSectionMeta"])
    o, w, sg = next((o, w, sg) for n, o, w, sg in smeta[0] if n == "tag")
    out = {}
    for x, r in py.normal(it.run(MOD, "TDFile", "__init__", [self, ("op", "param", "file")], st=st)):
        for e in x.ev:
            if e[0] != "loop": continue
            L = e[1]; tag = ("rd", py.MEM, pyai.add(pyai.scale(("k", L.id), smeta[1]), pyai.I(meta[1] + o)), w, sg)
            for p in L.paths:
                sets = [ev for ev in p.events if ev[0] == "setitem" and ev[2][0] == "cls"]
                for ev in sets:
                    for t in range(256):
                        if it.decide(p.st, pyai.eqc(tag, pyai.I(t))) is True:
                            ob = it.obj(p.st, ev[3]); out.setdefault(t, set()).add((ev[2][2], ob.cls.name if ob is not None else "?"))
    if not out: raise AnalysisBroken("TDFile.__init__: no section is dispatched on its tag")
    return out
def check(rep):
    M = core.module("flat"); P = py.program(); cl = P.mod(MOD).classes
    for n in ("TDFileMeta", "TDSectionMeta", "TDFDHeader", "TDSink", "TDEvent", "TDFnHeader"): py.C(P, n)
    rep.assumptions += ["both sides use the little-endian System V x86-64 layout (natural alignment), which is what the runtime is built for and ctypes applies"]
    rep.rule("field", "a field is read at the offset, width and signedness at which it is written")
    rep.rule("size", "writer and reader agree on the total size of a record")
    rep.rule("header", "read through the reader's declarations, the header left by the constructor tells the number of sections and each section's tag, alignment, offset and size")
    rep.rule("tag", "the tag of every section that is written selects the reader class for that kind of section, and each tag is used once")
    rep.rule("value", "special values (event kinds, unknown size, unknown descriptor) mean the same on both sides")
    # records
    for w, (cn, fs) in RECORDS.items():
        A = analyze(M, w); rep.count("functions")
        fields, size, _ = P.fields(cl[cn]); fd = {n: (o, wd, sg) for n, o, wd, sg in fields}
        for p in A.paths:
            if p.end != "ret": continue
            rep.count("paths"); st = {}
            for e in p.events:
                if e.kind == "store" and isinstance(e.addr, Lin):
                    d = sub(e.addr, at(A, 0))
                    if d.const: st[d.c] = e
            n = [e.args[0].c for e in p.calls("w_sizeof")]
            rep.ob("size", f"{cn} ({w})", n == [size], f"the runtime's record is {n} bytes, the reader steps over {size}", f"polytracker/taint_dag.py {cn}")
            for i, f, sgn in fs:
                if not rep.ob("field", f"{cn}.{f}", f in fd, "the reader has no such field", cn): continue
                o, wd, sg = fd[f]; e = st.get(o)
                rep.ob("field", f"{cn}.{f}", e is not None and e.val == at(A, i) and e.size == wd, f"the reader takes {wd} bytes at offset {o}; the runtime writes {[(k, v.size, str(v.val)) for k, v in sorted(st.items())]}", f"{e.loc if e is not None else w}")
                if sgn: rep.ob("field", f"{cn}.{f}", bool(T.const_of(M, sgn)) == bool(sg), f"the field is {'signed' if T.const_of(M, sgn) else 'unsigned'} in the runtime and {'signed' if sg else 'unsigned'} in the reader", f"polytracker/taint_dag.py {cn}")
            if cn == "TDEvent":
                o, wd, sg = fd.get("kind", (None, None, None)); e = st.get(o)
                k = cl["TDEvent"].inner.get("Kind"); nm = "ENTRY" if w.endswith("entry") else "EXIT"
                want = getattr(k.consts.get(nm), "value", None) if k is not None else (0 if nm == "ENTRY" else 1)
                rep.ob("value", f"TDEvent.kind ({w})", e is not None and e.size == wd and isinstance(e.val, Lin) and e.val.const and e.val.c == want, f"the runtime stores {e.val if e is not None else None}, the reader calls {want} {nm}", w)
    # special values
    r = ("rec", ("cls", MOD, "TDFDHeader"), py.MEM, pyai.I(0))
    for m, f, v in (("invalid_size", "size", T.const_of(M, "w_invalid_size")), ("invalid_fd", "fd", None)):
        it = pyai.Interp(P, {}); fdd = {n: (o, wd, sg) for n, o, wd, sg in P.fields(cl["TDFDHeader"])[0]}
        if f not in fdd or m not in cl["TDFDHeader"].methods: continue
        o, wd, sg = fdd[f]
        if v is None: v = T.const_of(M, "w_invalid_fd") - ((1 << 32) if sg else 0)
        want = pyai.eqc(("rd", py.MEM, pyai.I(o), wd, sg), pyai.I(v))
        for x, out in it.run(MOD, "TDFDHeader", m, [r], st=py.start(P)):
            v1 = out[1] if out[0] == "return" else None
            ok = v1 == ("bool", want) or (v1 in (("c", True), ("c", False)) and it.decide(x, want) is (v1[1]))
            rep.ob("value", f"TDFDHeader.{m}", ok, f"answers {pyai.show(v1) if v1 else out}; the runtime writes {v} for an unknown {f}", f"polytracker/taint_dag.py TDFDHeader.{m}")
    header(rep, M, P, cl)
def header(rep, M, P, cl):
    A = T.construct(M); B = T.destroy(M); L = core.layout(M); rep.count("functions", 2)
    meta, smeta = P.fields(cl["TDFileMeta"]), P.fields(cl["TDSectionMeta"])
    mf = {n: (o, w, sg) for n, o, w, sg in meta[0]}; sf = {n: (o, w, sg) for n, o, w, sg in smeta[0]}
    total = T.const_of(M, "w_section_count"); disp = dispatch(P)
    for n in ("tag", "align", "offset", "size"):
        if not rep.ob("header", f"TDSectionMeta.{n}", n in sf, "the reader has no such field", "TDSectionMeta"): return
        if n != "align": rep.ob("field", f"TDSectionMeta.{n}", sf[n][2] == 0, "the field is unsigned in the runtime and signed in the reader", "TDSectionMeta")
    if not rep.ob("header", "TDFileMeta.section_count", "section_count" in mf, "the reader has no such field", "TDFileMeta"): return
    tags = {n: T.const_of(M, f"w_tag_{n}") for n in KINDS}
    for n, t in tags.items():
        cs = disp.get(t, set())
        rep.ob("tag", n, cs == {(KINDS[n], KINDS[n])}, f"sections of this kind carry tag {t}, which the reader interprets as {sorted(c[1] for c in cs) or 'nothing: it rejects the file'}", f"polytracker/taint_dag.py TDFile.__init__")
        rep.ob("tag", n, list(tags.values()).count(t) == 1, f"tag {t} is used by {[k for k, v in tags.items() if v == t]}", n)
    good = [p for p in A.paths if p.end == "ret"]
    if not rep.ob("header", "constructor", len(good) >= 1, "no path of the constructor ends normally", A.F.dname): return
    for p in good:
        rep.count("paths"); m = T.mapping(p)
        if not rep.ob("header", "constructor", m is not None, "the file is not mapped exactly once", A.F.dname): return
        im = T.Image(M, p, m); ob = T.Image(M, p, arg(0))
        o, w, sg = mf["section_count"]
        rep.ob("header", "TDFileMeta.section_count", im.get(o, w) == total and sg == 0, f"the reader takes {w} bytes at {o} for the number of sections and finds {im.get(o, w)}; there are {total}", A.F.dname)
        def f(i, n): o, w, sg = sf[n]; return im.get(meta[1] + i * smeta[1] + o, w)
        bytag = {f(i, "tag"): i for i in range(total)}
        for n, t in tags.items():
            if not rep.ob("header", n, t in bytag, f"read through the reader's declarations no section header carries tag {t}: {sorted(map(str, bytag))}", A.F.dname): continue
            i = bytag[t]; x = L[n]
            rep.ob("header", n, f(i, "align") == T.const_of(M, f"w_align_{n}"), f"the alignment reads as {f(i, 'align')}; it is {T.const_of(M, f'w_align_{n}')}", A.F.dname)
            if isinstance(x, core.Sec):
                firsts = [e.val for e in p.events if e.kind == "store" and e.addr == x.begin]
                v = sub(firsts[0], m) if firsts and isinstance(firsts[0], Lin) else None
                rep.ob("header", n, v is not None and v.const and f(i, "offset") == v.c, f"the offset reads as {f(i, 'offset')}; the section is at {v}", A.F.dname)
        # the destructor completes the size fields
        for q in [q for q in B.paths if q.end == "ret"]:
            st = {}
            for e in q.events:
                b = base_of(e.addr) if e.kind == "store" and isinstance(e.addr, Lin) else None
                if b and b[0] == "ld":
                    d = sub(e.addr, atom(b, 64)); c = sub(b[1], arg(0))
                    v = ob.get(c.c, 8) if c.const else None
                    h = sub(v, m) if isinstance(v, Lin) else None
                    if d.const and h is not None and h.const: st[h.c + d.c] = e
            for n, t in tags.items():
                if t not in bytag: continue
                o, w, sg = sf["size"]; e = st.get(meta[1] + bytag[t] * smeta[1] + o)
                rep.ob("header", n, e is not None and e.size == w, f"no {w}-byte size is written where the reader looks for it", B.F.dname)
