"""Shared parts of the checks over the Python reader: the program, models of already established callees, and how the
values a function produces are read off its paths."""
from engine.pyai import *
from engine import cxx
from engine.cxx import AnalysisBroken
MEM = ("op", "mem", "file")
def program():
    P = Program(cxx.REPO); P.mod("taint_dag"); return P
def start(P, mod="taint_dag"):
    s = St(); s.frames.append({"__mod__": P.mod(mod), "__cls__": None, "__parent__": None, "__yield__": None}); s.cur = 0; return s
def hdr(name): return ("op", "hdr", name)
def fld(h, n): return ("op", "attr", h, n)
def C(P, name, mod="taint_dag"):
    if name not in P.mod(mod).classes: raise AnalysisBroken(f"class {name} is not in polytracker/{mod}.py")
    return ("cls", mod, name)
def section(it, st, cls, h=None):
    """(state, instance) of a section object over the header h; paths that fail an assertion are dropped"""
    h = h or hdr(cls)
    r = [(x, v) for x, v in it.construct(st, C(it.P, cls), [MEM, h], {}) if not x.pending]
    if len(r) != 1: raise AnalysisBroken(f"{cls} is constructed in {len(r)} ways")
    x, v = r[0]; x = x.copy(); x.ev = st.ev; return x, v
def where(mod, x):
    n = x.line if isinstance(x, (Loop, LoopView)) else x
    return f"polytracker/{mod}.py:{n}"
def attr_in(o, n): return dict(o.data).get(n)

# ---- produced values: what a generator yields, or what the iterable it returns holds
def produced(it, res):
    """[(state, outcome)] where every value produced is a ('yield', raw, snapshot, line) event"""
    out = []
    for x, o in res:
        if o[0] == "return" and o[1] != ("c", None):
            v = o[1]
            if v[0] == "ref" and x.heap[v[1]].kind in ("list", "set"):
                y = x.copy(); y.ev = yields_of(y.ev, v); out.append((y, ("return", ("c", None)))); continue
            if v[0] in ("gen", "genexp", "ref", "range", "tup", "items", "zip", "enum") or (v[0] == "op" and v[1] in ("elem", "attr", "call", "reversed", "sorted")):
                def em(z, e): z = z.copy(); z.emit("yield", e, it.deep(z, e), 0); return [z]
                f = it.flat(x, v)
                out += it.run_gen(x, f, em) if f[0] in ("gen", "genexp", "iterof") else it.drain(x, v, em)
                continue
        out.append((x, o))
    return out
def yields_of(ev, ref):
    out = []
    for e in ev:
        if e[0] == "mut" and e[1] == ref and e[2] in ("append", "add"): out.append(("yield", e[3][0], e[4], 0))
        elif e[0] == "mut" and e[1] == ref: out.append(("many",) + e[2:])
        elif e[0] == "loop": out.append(("loop", LoopView(e[1], lambda evs: yields_of(evs, ref))))
        else: out.append(e)
    return tuple(out)
class LoopView:
    """a loop whose events are seen through a filter"""
    def __init__(s, L, f): s.L, s.f = L, f
    def __getattr__(s, n): return getattr(s.L, n)
    @property
    def paths(s): return [PathView(p, s.f) for p in s.L.paths]
class PathView:
    def __init__(s, p, f): s.p, s.f = p, f
    def __getattr__(s, n): return getattr(s.p, n)
    @property
    def events(s): return s.f(s.p.events)
QUIET = ("setattr", "setitem", "call", "except", "iter")
def shape(ev, keep=("yield", "many", "loop")):
    """events that produce values; loops that produce nothing are dropped"""
    out = []
    for e in ev:
        if e[0] == "loop":
            if any(shape(p.events, keep) for p in e[1].paths): out.append(e)
        elif e[0] in keep: out.append(e)
    return out
def quiet_stop(p): return p.out[0] in ("break", "return") and not p.events and (p.out[0] == "break" or p.out[1] == ("c", None))
def stops(L):
    """states in which the loop ends: its own condition, or a leading test that leaves it with nothing done"""
    return list(L.exits) + [p.st for p in L.paths if quiet_stop(p) and not opaque_loop(L)]
def body(L):
    """iterations; leaving a loop over an opaque collection early is never a proper end"""
    return [p for p in L.paths if opaque_loop(L) or not quiet_stop(p)]
def opaque_loop(L): return isinstance(L.cond, tuple) and L.cond[0] == "more"
def normal(res): return [(x, o) for x, o in res if o[0] in ("return", "next")]
def total(it, st, L, size, step, k=None):
    """does the loop run exactly while step*k < size (whole records)? -> list of complaints"""
    k = k or ("k", L.id); bad = []
    x = scale(k, step)
    for p in body(L):
        if not it.ent(p.st, add(sub(x, size), I(1))): bad.append(f"an iteration is not limited to records inside the range: {facts(p.facts)}")
        if p.out[0] not in ("next", "continue"): bad.append(f"the enumeration can stop early ({p.out[0]}) when {facts(p.facts)}")
    for e in stops(L):
        if not it.ent(e, sub(sub(size, x), I(step - 1))): bad.append(f"the enumeration can end before the last record: {facts(e.facts[len(L.head.facts):])}")
    return bad
def facts(fs):
    r = []
    for c, b in fs:
        s = {"le0": lambda: show(c[1]) + " <= 0", "eq0": lambda: show(c[1]) + " == 0"}.get(c[0], lambda: show(c))()
        r.append(s if b else f"not ({s})")
    return "; ".join(r)[:300] or "always"

# ---- models
def prop(f): f.prop = True; return f
TD = ("obj", "taint_dag", "TDFile", "tdfile")
def fdh(i): return ("op", "item", ("op", "attr", TD, "fd_headers"), i)
NODES = {"TDSourceNode": ("idx", "offset"), "TDUnionNode": ("left", "right"), "TDRangeNode": ("first", "last"), "TDUntaintedNode": ()}
def nattr(lbl, a): return ("op", "node." + a, lbl)
def mark(lbl): return ("op", "node.affects_control_flow", lbl)
def decode_model(it, st, self, args, kw):
    """what decode_node answers: an object of one of the node kinds, the same for the same label"""
    lbl = args[0] if args else kw["label"]; out = []
    kinds = list(NODES); cur = st
    for i, kd in enumerate(kinds):
        c = ("kind", lbl, kd)
        if i == len(kinds) - 1: br = [(cur, True)]
        else: br = it.fork(cur, c)
        nxt = None
        for x, b in br:
            if not b: nxt = x; continue
            x = x.copy()
            at = {a: nattr(lbl, a) for a in NODES[kd]}; at["affects_control_flow"] = mark(lbl) if kd != "TDUntaintedNode" else ("c", False)
            if kd == "TDUntaintedNode": x.facts = x.facts + ((c, True),)
            for z in kinds:
                if z != kd and (("kind", lbl, z), False) not in x.facts: x.facts = x.facts + ((("kind", lbl, z), False),)
            ref = it.inst(x, it.P.mod("taint_dag").classes[kd], **at); out.append((x, ref))
            if kd == "TDRangeNode": x.facts = x.facts + ((("le0", sub(nattr(lbl, "first"), nattr(lbl, "last"))), True),)
        if nxt is None: break
        cur = nxt
    return out
def kind(st, lbl):
    for c, b in st.facts:
        if c[0] == "kind" and c[1] == lbl and b: return c[2]
    return None
def const_model(v):
    return lambda it, st, self, args, kw: [(st, v)]
