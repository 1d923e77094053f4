"""Path-sensitive value-flow analysis of the taint forest (syntax trees): the node built per label kind with its parents
and mark, the unfolding of a range decided by induction over its generic iteration, caching, and the enumeration."""
from .py import *
MIN_OBLIGATIONS = 25
MOD = "taint_dag"
def inp(d, idx):
    if d is None or d[0] != "inst" or d[1] != "Input": return False
    a = dict(d[2]); e = fdh(idx); path, h = ("op", "item", e, I(0)), ("op", "item", e, I(1))
    return a.get("uid") == ("op", "attr", h, "fd") and a.get("path") == ("op", "new", "str", (path,), ()) and a.get("size") == ("op", "attr", h, "size")
def check(rep):
    P = program(); cl = P.mod(MOD).classes
    rep.assumptions += ["decode_node answers as established by C02; the first label of a range is below its last (C02, C03)"]
    rep.rule("node", "an input label has no parents and names its input, a union has its two members as parents; label and control-flow mark are the label's own")
    rep.rule("range", "the ancestry of a range label is exactly its labels, both ends included; synthetic nodes get labels of their own")
    rep.rule("cache", "a node is built once per label and returned for that label only")
    rep.rule("enumerate", "every label of the trace is visited")
    rep.rule("parents", "parent_one and parent_two are the nodes of the two parent labels")
    rep.rule("graph", "the exported graph has every node and an edge from each parent to its child")
    TR = ("obj", MOD, "TDProgramTrace", "trace")
    def forest(it, st):
        cache = it.new(st, "dict", None, (("op", "CACHE"), ()))
        c = it.inst(st, cl["TDTaintForest"], trace=it.inst(st, cl["TDProgramTrace"], tdfile=TD), node_cache=cache, synth_label_cnt=("op", "CNT"))
        return c, cache
    lbl = ("nn", "label")
    def parents(it, st, ref):
        r = [(x, o) for x, o in it.run(MOD, "TDTaintForestNode", "parent_labels", [ref], st=st)]
        return r[0][1][1] if len(r) == 1 and r[0][1][0] == "return" else None
    def isnode(it, st, v, label, want_parents, site, w, rule, src=None):
        o = it.obj(st, v)
        if not rep.ob(rule, site, o is not None and o.kind == "inst" and o.cls.name == "TDTaintForestNode", f"is {show(v)}", w): return
        a = dict(o.data)
        rep.ob(rule, site, a.get("label") == label, f"the node carries label {show(a.get('label', ('c', None)))}, not {show(label)}", w)
        rep.ob(rule, site, a.get("affected_control_flow") == mark(lbl), f"the node's control-flow mark is {show(a.get('affected_control_flow', ('c', None)))}", w)
        ps = parents(it, st, v)
        if want_parents is None: rep.ob(rule, site, ps == ("c", None), f"an input has parents {show(ps)}", w)
        else: rep.ob(rule, site, ps is not None and ps[0] == "tup" and len(ps[1]) == 2 and sorted(ps[1], key=repr) == sorted(want_parents, key=repr), f"its parents are {show(ps) if ps else ps}; expected {[show(q) for q in want_parents]}", w)
        s = a.get("source")
        if src is None: rep.ob(rule, site, s == ("c", None), f"names an input: {show(s) if s else s}", w)
        else: rep.ob(rule, site, inp(it.deep(st, s), src), f"names as its input {it.deep(st, s) if s else s}", w)
    it = Interp(P, {("TDFile", "decode_node"): decode_model}); st = start(P); me, cache = forest(it, st); site = "TDTaintForest.create_node"
    res = it.run(MOD, "TDTaintForest", "create_node", [me, lbl], st=st); rep.count("functions"); rep.count("paths", len(res)); kinds = set()
    for x, o in res:
        kd = kind(x, lbl); w = site
        if kd == "TDUntaintedNode": continue       # label 0 is never created, the cache holds it from the start
        kinds.add(kd)
        if not rep.ob("node", f"{site}({kd})", o[0] == "return", f"fails ({o[0]}) when {facts(x.facts)}", w): continue
        s = f"{site}({kd})"
        if kd == "TDSourceNode": isnode(it, x, o[1], lbl, None, s, w, "node", nattr(lbl, "idx"))
        elif kd == "TDUnionNode": isnode(it, x, o[1], lbl, [nattr(lbl, "left"), nattr(lbl, "right")], s, w, "node")
        else: unfold(rep, it, x, o[1], lbl, me, cache, s, isnode)
    for kd in ("TDSourceNode", "TDUnionNode", "TDRangeNode"): rep.ob("node", f"{site}({kd})", kd in kinds, "labels of this kind get no node", site)
    # synthetic labels
    it = Interp(P); st = start(P); me, cache = forest(it, st)
    # caching
    it = Interp(P, {("TDTaintForest", "create_node"): lambda it, st, self, a, k: [(st, ("op", "CREATED", a[0] if a else k["label"]))]}); st = start(P); me, cache = forest(it, st); site = "TDTaintForest.get_node"
    for x, o in it.run(MOD, "TDTaintForest", "get_node", [me, lbl], st=st):
        rep.count("paths"); item = ("op", "item", ("op", "CACHE"), lbl); none = it.decide(x, ("isnone", item)); sets = [e for e in x.ev if e[0] == "setitem"]
        if none is False: rep.ob("cache", site, o == ("return", item) and not sets, f"a cached node is answered with {show(o[1]) if len(o) > 1 else o}", site)
        else:
            rep.ob("cache", site, o == ("return", ("op", "CREATED", lbl)), f"answers {show(o[1]) if len(o) > 1 else o} when {facts(x.facts)}", site)
            rep.ob("cache", site, sets == [("setitem", cache, lbl, ("op", "CREATED", lbl))], f"remembers {[(show(e[2]), show(e[3])) for e in sets]}", site)
    # start: every label is known
    it = Interp(P, {("TDFile", "label_count"): prop(const_model(("nn", "count")))}); st = start(P); tr = it.inst(st, cl["TDProgramTrace"], tdfile=TD); me = it.inst(st, cl["TDTaintForest"]); site = "TDTaintForest.__init__"
    for x, o in it.run(MOD, "TDTaintForest", "__init__", [me, tr], st=st):
        rep.count("paths")
        if not rep.ob("enumerate", site, o[0] == "return", f"fails ({o[0]})", site): continue
        v = attr_in(x.heap[me[1]], "node_cache"); cnt = attr_in(x.heap[me[1]], "synth_label_cnt")
        rep.ob("range", site, cnt is not None and (num(cnt) or 0) <= -1, f"synthetic labels start at {show(cnt) if cnt else cnt}, where labels of the trace are", site)
        zero, cover = zero_and_cover(it, x, v)
        rep.ob("enumerate", site, zero, "label 0 has no entry", site); rep.ob("enumerate", site, cover, "not every label of the trace gets an entry", site)
    site = "TDTaintForest.nodes"
    it = Interp(P, {("TDTaintForest", "get_node"): lambda it, st, self, a, k: [(st, ("op", "GET", a[0] if a else k["label"]))]}); st = start(P); me, cache = forest(it, st)
    for x, o in produced(it, it.run(MOD, "TDTaintForest", "nodes", [me], st=st)):
        sh = shape(x.ev); rep.count("paths")
        if not rep.ob("enumerate", site, o[0] in ("return", "next") and len(sh) == 1 and sh[0][0] == "loop", f"{o[0]}; nodes come from {[e[0] for e in sh]}", site): continue
        L = sh[0][1]; w = where(MOD, L); k = ("k", L.id)
        tops = [("op", "max", ("op", "keys", ("op", "CACHE"))), ("op", "max", ("op", "CACHE"))]
        for p in body(L):
            ys = shape(p.events); y = ys[0][1] if len(ys) == 1 and ys[0][0] == "yield" else None
            rep.ob("enumerate", site, y is not None and y[0] == "op" and y[1] == "GET" and y[2] in [sub(t, k) for t in tops] and p.out[0] in ("next", "continue"), f"the k-th node visited is {show(y) if y else ys} ({p.out[0]}); expected the node of label max-k", w)
        for e in stops(L):
            c = [(c, b) for c, b in e.facts[len(L.head.facts):]]
            rep.ob("enumerate", site, any(c[0] == "in" and c[1] in [sub(t, k) for t in tops] and not b for c, b in c), f"the enumeration ends when {facts(e.facts[len(L.head.facts):])}, not when a label is unknown", w)
    # parents
    for m, i in (("parent_one", 0), ("parent_two", 1)):
        it = Interp(P, {("TDTaintForest", "get_node"): lambda it, st, self, a, k: [(st, ("op", "GET", a[0] if a else k["label"]))]}); st = start(P); me, cache = forest(it, st)
        for ps in (("tup", (("nn", "p0"), ("nn", "p1"))), ("c", None)):
            cons = [(x, v) for x, v in it.construct(st, ("cls", MOD, "TDTaintForestNode"), [me, lbl, ("c", None), ("c", False), ps], {}) if not x.pending]
            for x, v in cons:
                for y, o in it.run(MOD, "TDTaintForestNode", m, [v], st=x):
                    want = ("op", "GET", ps[1][i]) if ps[0] == "tup" else ("c", None)
                    rep.ob("parents", f"TDTaintForestNode.{m}", o == ("return", want), f"answers {show(o[1]) if len(o) > 1 else o}; expected {show(want)}", m); rep.count("paths")
    graph(rep, P)
def unfold(rep, it, x, v, lbl, me, cache, site, isnode):
    f, l = nattr(lbl, "first"), nattr(lbl, "last")
    loops = [e[1] for e in x.ev if e[0] == "loop"]
    if not rep.ob("range", site, len(loops) == 1, f"{len(loops)} loops unfold the range", site): return
    L = loops[0]; w = where(MOD, L); k = ("k", L.id)
    o = it.obj(x, v); ps = None
    r = it.run(MOD, "TDTaintForestNode", "parent_labels", [v], st=x) if o is not None and o.kind == "inst" else []
    ps = r[0][1][1] if r and r[0][1][0] == "return" else None
    if not rep.ob("range", site, ps is not None and ps[0] == "tup" and len(ps[1]) == 2, f"the range's parents are {show(ps) if ps else ps}", w): return
    # the accumulated side: a variable whose value at the loop head stands for what was unfolded so far
    for e0, fin, up in ((f, l, True), (l, f, False)):
        accs = [key for key, val in it.vars(L.head).items() if key[0] == "v" and val == ("op", "lv", L.id, key) and it.vars(L.entry).get(key) == e0]
        for key in accs:
            acc = ("op", "lv", L.id, key)
            if sorted(ps[1], key=repr) == sorted((acc, fin), key=repr): break
        else: continue
        break
    else:
        rep.ob("range", site, False, f"the range's parents are {show(ps)}; expected what was unfolded from one end and the other end", w); return
    isnode(it, x, v, lbl, [acc, fin], site, w, "range")
    elem = add(add(f, I(1)), k) if up else sub(sub(l, I(1)), k)
    for b in total(it, x, L, sub(sub(l, f), I(1)), 1): rep.ob("range", site, False, b, w)
    cnt = it.vars(L.entry)
    for p in L.paths:
        if p.out[0] not in ("next", "continue"): continue
        sets = [e for e in p.events if e[0] == "setitem" and e[1] == cache]
        if not rep.ob("range", site, len(sets) == 1, f"an unfolding step stores {len(sets)} nodes", w): continue
        syn = sets[0][2]; nxt = it.vars(p.st)[key]
        rep.ob("range", site, nxt == syn, f"the next step builds on {show(nxt)}, not on the node just made ({show(syn)})", w)
        rep.ob("range", site, syn == sub(("op", "CNT"), k) , f"the k-th synthetic label is {show(syn)}; expected one below the previous one", w)
        rep.ob("range", site, attr_in(p.st.heap[me[1]], "synth_label_cnt") == sub(sub(("op", "CNT"), k), I(1)), "the synthetic label is not used up", w)
        isnode(it, p.st, sets[0][3], syn, [acc, elem], site, w, "range")
def zero_and_cover(it, x, v):
    zero = cover = False; n = ("nn", "count")
    def scan(ev):
        nonlocal zero, cover
        for e in ev:
            if e[0] == "setitem" and e[1] == v and e[2] == I(0): zero = True
            if e[0] == "loop":
                L = e[1]; ok = True; start_ = None
                for p in L.paths:
                    s = [q for q in p.events if q[0] == "setitem" and q[1] == v]
                    if len(s) != 1 or p.out[0] not in ("next", "continue"): ok = False; break
                    d = num(sub(s[0][2], ("k", L.id)))
                    if d not in (0, 1): ok = False; break
                    start_ = d
                if ok and start_ is not None and not total(it, x, L, sub(n, I(start_)), 1):
                    cover = True
                    if start_ == 0: zero = True
    scan(x.ev)
    return zero, cover
def graph(rep, P):
    NODES_ = ("op", "NODES"); it = Interp(P, {("TaintForest", "nodes"): const_model(NODES_), "DAG": lambda it, st, s, a, k: [(st, a[0])], ("DAG", "()"): lambda it, st, s, a, k: [(st, a[0])]})
    P.mod("taint_forest"); st = start(P, "taint_forest"); me = it.inst(st, P.mod("taint_forest").classes["TaintForest"]); site = "TaintForest.to_graph"
    res = it.run("taint_forest", "TaintForest", "to_graph", [me], st=st); rep.count("functions")
    for x, o in res:
        loops = [e[1] for e in x.ev if e[0] == "loop"]
        if not rep.ob("graph", site, o[0] == "return" and len(loops) == 1 and loops[0].cond == ("more", NODES_, ("k", loops[0].id)), f"{o[0]}: does not go once over all nodes", site): continue
        L = loops[0]; w = where("taint_forest", L); n = ("op", "elem", NODES_, ("k", L.id)); lab = ("op", "attr", n, "label")
        for p in L.paths:
            rep.count("paths")
            rep.ob("graph", site, p.out[0] in ("next", "continue"), f"nodes are left out ({p.out[0]})", w)
            ad = [e for e in p.events if e[0] == "mut" and e[2] == "add_node"]; ed = [e[3] for e in p.events if e[0] == "mut" and e[2] == "add_edge"]
            rep.ob("graph", site, [e[3] for e in ad] == [(lab,)], "a node is not added under its label", w)
            want = []
            for a in ("parent_one", "parent_two"):
                q = ("op", "attr", n, a); t = it.decide(p.st, ("truthy", q)); nn = it.decide(p.st, ("isnone", q))
                if t is True or nn is False: want.append((("op", "attr", q, "label"), lab))
                else: rep.ob("graph", site, t is False or nn is True, f"{a} is not considered", w)
            rep.ob("graph", site, sorted(ed, key=repr) == sorted(want, key=repr), f"edges added are {[(show(a), show(b)) for a, b in ed]} when {facts(p.facts)}", w)
