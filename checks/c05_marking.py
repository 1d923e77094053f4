"""Worklist analysis of marking (every label taken out is marked and each of its members is marked already, is an input byte
that gets marked, or is put in) and typestate/ring analysis of the queue it uses."""
from .taintmem import *
from . import core as _core
from .c04_labels import mark, into
MIN_OBLIGATIONS = 60
PUSH, POP, EMPTY = (re.compile(r"^taintdag::utils::LabelDeq<.*>::" + x + r"\(") for x in ("push_back", "pop_front", "empty"))
ADD, CHK, SRC, DEC = (re.compile(r"^taintdag::" + x + r"\(") for x in ("add_affects_control_flow", "check_affects_control_flow", "is_source_taint", "decode"))
def check(rep):
    M = module("flat"); L = layout(M); Y = Layout(M); S = L["Labels"]; begin = atom(("ld", S.begin, 8, 0), 64)
    rep.assumptions += ["C02 establishes what encode, decode, is_source_taint and the control-flow mark functions do", "unions and source labels are created without a mark on anything but an input byte (C03)",
                        "std::deque behaves as documented", "concurrent marking of overlapping labels: the statement is about the state once all of them have finished"]
    rep.rule("start", "the label that influences the branch is marked already, is an input byte and gets marked, or is put into the queue")
    rep.rule("taken", "every label taken out of the queue gets marked")
    rep.rule("members", "each member of a label taken out is marked already, is an input byte and gets marked, or is put into the queue")
    rep.rule("all", "marking ends only when the queue is empty, and every label of a range is visited, both ends included")
    rep.rule("only", "only the mark of the label itself, of labels taken out, or of their members is touched, and nothing but the mark")
    rep.rule("elsewhere", "no other operation sets a mark")
    rep.rule("queue", "the queue hands out exactly the labels put in, each once")
    found = method(M, r"affects_control_flow\(")
    for d, A in found: marking(rep, A, S, Y, begin)
    for d, A in method(M, r"\w+\("):
        if "affects_control_flow(" in d or "~" in d: continue
        rep.count("methods")
        for p in A.paths:
            rep.ob("elsewhere", re.match(r"taintdag::PolyTracker::(\w+)", d).group(1), not p.calls(ADD), "sets a control-flow mark without marking what the label is built from", where(p))
    queue(rep)
# ---------------------------------------------------------------------------------------------------- the worklist
def is_label(t, x):
    """the term t (32 or 64 bits) is the label x; x: ("val", term) | ("cell", address) | ("elem", K, address)"""
    if not isinstance(t, Lin): return False
    if x[0] == "val": return strip(low32(t)) == strip(low32(x[1]))
    if x[0] == "cell": return reads(t, x[1], 4)
    if x[0] == "elem":
        f = form(t); return f is not None and f[0] == x[1] and f[1] == x[2] and f[2] == 0
def strip(d): return {a: c for a, c in d.items() if c}
def form(t):
    """(loop counter or None, memory cell or None, constant) of a 32-bit sum"""
    if not isinstance(t, Lin): return None
    a = t.single()
    if a and a[0] in ("zext", "sext") and isinstance(a[2], Lin) and a[2].w == 32: return form(a[2])
    k = None; cell = None
    for a, c in t.t:
        if a[0] == "K" and c == 1 and k is None: k = a; continue
        b = cell_bits(atom(a, t.w))[:32]
        if c == 1 and cell is None and b[0] is not None and b[0] not in (0, 1) and reads32(b): cell = b[0][0]; continue
        if a[0] == "trunc" and c == 1 and len(t.t) == 1 or a[0] == "zext" and c == 1 and isinstance(a[2], Lin) and len(t.t) == 1:
            f = form(a[2]); return None if f is None else (f[0], f[1], f[2] + t.c)
        return None
    return k, cell, (t.c if t.c < 1 << (t.w - 1) else t.c - (1 << t.w))
def reads32(b):
    a = b[0][0]; return len(b) >= 32 and all(b[i] == (Lin(64, a.c + i // 8, a.t), i % 8) for i in range(32))
def entries(p, x, begin):
    """addresses of stored entries of label x the path reads or writes"""
    out = set()
    for e in p.events:
        for t in (e.args or ()) + () if e.kind == "call" else ():
            q = is_entry(t, begin)
            if q is not None and is_label(entry_label(q, begin), x): out.add(q)
        if e.kind == "store" and isinstance(e.addr, Lin) and any(a[0] == "ld" for a, _ in e.addr.t):
            q = entry_label(e.addr, begin)
            if q is not None and is_label(q, x): out.add(e.addr)
    return out
def marks(A, p, x, begin):
    return [e for e in p.events if e.kind == "store" and isinstance(e.addr, Lin) and entry_label(e.addr, begin) is not None and is_label(entry_label(e.addr, begin), x) and mark(A, p, e)]
def said(p, rx, x, begin):
    """what the path learnt from a predicate on the stored entry of x"""
    for e in p.calls(rx):
        q = is_entry(e.args[-1], begin)
        if q is not None and is_label(entry_label(q, begin), x):
            v = truth(p, e.res)
            if v is not None: return v
    return None
def truth(p, t):
    a = t.single() if isinstance(t, Lin) else None
    for c in p.facts.conds:
        if c[0] == "bool" and c[1] == a: return bool(c[2])
        if c[0] == "bool" and isinstance(c[1], tuple) and c[1][0] == "trunc" and c[1][2] == t: return bool(c[2])
    h = p.facts.holds("eq", t, const(0, t.w))
    return None if h is None else not h
def handled(A, p, x, begin):
    if said(p, CHK, x, begin) is True: return True
    if any(is_label(e.args[1], x) for e in p.calls(PUSH)): return True
    return said(p, SRC, x, begin) is True and bool(marks(A, p, x, begin))
def uid(l): return l if isinstance(l, tuple) else getattr(l, "uid", l)
def marking(rep, A, S, Y, begin):
    site = "affects_control_flow"; x0 = ("val", at(A, 1)); inner_ok = {}; later = []; seen = set()
    rep.count("paths", len(A.paths))
    # marking at the time a label is put in also marks everything taken out
    atpush = all(marks(A, p, ("val", e.args[1]), begin) for p in A.paths for e in p.calls(PUSH))
    for p in A.paths:
        w = where(p); txt = f"(path: {conds(p)[:300]})"
        if p.end == "noreturn": rep.ob("all", site, stopped(p) or bool(p.calls("abort")) or any("bad_variant" in (e.dname or "") for e in p.calls()) or unreachable(p, Y), f"stops {txt}", w); continue
        pops, pushes = p.calls(POP), p.calls(PUSH)
        legit = [x0]
        if not rep.ob("taken", site, len(pops) <= 1, f"{len(pops)} labels taken out at a time", w): continue
        if pops:
            x = ("val", pops[0].res); legit.append(x); decs = [e for e in p.calls(DEC) if decodes(p, e, x, begin)]
            rep.ob("start", site, any(is_label(e.args[1], x0) for e in pushes) or handled(A, p, x0, begin), "the queue does not start with the label itself", w)
            em = p.calls(EMPTY)
            rep.ob("all", site, bool(em) and truth(p, em[-1].res) is False and p.events.index(em[-1]) < p.events.index(pops[0]), "takes a label out of a queue that may be empty", w)
            loop = [uid(l) for l in pops[0].loops]; outer = loop[-1] if loop else None
            if p.end == "ret" or p.end[1] == outer: rep.ob("taken", site, bool(marks(A, p, x, begin)) or atpush, "a label taken out is not marked", w)
            kind = None; box = None
            for d in decs:
                b = d.args[0]; k, ne = cellval(p, Lin(64, b.c + Y.kind, b.t)); box = b
                if k is None and {Y.SRC, Y.RNG, Y.UNI} - ne and len({Y.SRC, Y.RNG, Y.UNI} - ne) == 1: k = ({Y.SRC, Y.RNG, Y.UNI} - ne).pop()
                kind = k if k is not None else kind
            if said(p, SRC, x, begin) is True: kind = Y.SRC
            seen.add(kind)
            cells = {o: Lin(64, box.c + o, box.t) for o in set(Y.members) | {Y.first, Y.last}} if box is not None else {}
            if p.end == "ret": rep.ob("all", site, False, f"returns with labels pending {txt}", w); continue
            if not rep.ob("members", site, kind is not None, f"the kind of a label taken out is not told {txt}", w): continue
            if kind == Y.UNI:
                legit += [("cell", cells[o]) for o in Y.members]
                for o in Y.members: rep.ob("members", site, handled(A, p, ("cell", cells[o]), begin), f"a member of a union is lost {txt}", w)
            if kind == Y.RNG:
                ks = [("K", p.end[1])] + sorted({a for c in p.facts.conds for t in c[1:3] if isinstance(t, Lin) for a in atoms_of(t) if a[0] == "K"}, key=str)
                legit += [("elem", k, cells[Y.first]) for k in ks]
                if p.end[1] != outer:
                    el = ("elem", ("K", p.end[1]), cells[Y.first]); ok = handled(A, p, el, begin)
                    rep.ob("members", site, ok, f"a label of a range is lost {txt}", w); inner_ok[p.end[1]] = inner_ok.get(p.end[1], True) and ok
                else: later.append((p, cells, w, txt))
            elif p.end[1] != outer: rep.ob("members", site, kind == Y.SRC or kind == Y.UNI, f"a loop inside {txt}", w)
        else:
            em = p.calls(EMPTY)
            if any(is_label(e.args[1], x0) for e in pushes):
                rep.ob("all", site, p.end == "ret" and bool(em) and truth(p, em[-1].res) is True, f"ends although labels may be pending {txt}", w)
            else: rep.ob("start", site, handled(A, p, x0, begin), f"the label is neither marked nor queued {txt}", w); seen.add("early")
        for e in p.events:
            if into(e, S, begin):
                q = entry_label(e.addr, begin)
                rep.ob("only", site, mark(A, p, e) and q is not None and any(is_label(q, x) for x in legit), f"writes {str(e)[:200]}", w)
        for e in pushes: rep.ob("only", site, any(is_label(e.args[1], x) for x in legit), f"puts {e.args[1]} into the queue {txt}", w)
    for p, cells, w, txt in later:
        rep.ob("all", site, range_done(A, p, cells, Y, begin, inner_ok), f"leaves a range before its last label {txt}", w)
    rep.ob("members", site, {Y.UNI, Y.RNG} <= seen, f"kinds handled: {sorted(map(str, seen))}")
def unreachable(p, Y):
    """a taint of none of the three kinds: no such variant value"""
    return any({Y.SRC, Y.RNG, Y.UNI} <= cellval(p, Lin(64, e.args[0].c + Y.kind, e.args[0].t))[1] for e in p.calls(DEC))
def decodes(p, e, x, begin):
    """e decodes the stored taint of x, with or without its mark"""
    t = e.args[1]
    for _ in range(3):
        q = is_entry(t, begin)
        if q is not None: return is_label(entry_label(q, begin), x)
        c = [y for y in p.calls(ADD) if y.res == t]
        if not c: return False
        t = c[0].args[-1]
    return False
def range_done(A, p, cells, Y, begin, inner_ok):
    for c in p.facts.conds:
        if c[0] not in ("ult", "ule", "ugt", "uge", "eq") or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
        for x, y, pr in ((c[1], c[2], c[0]), (c[2], c[1], {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq"}[c[0]])):
            f, g = form(x), form(y)
            if not f or not g or f[0] is None or f[1] != cells[Y.first] or g[0] is not None or g[1] != cells[Y.last]: continue
            k = f[0]; d = g[2] - f[2]          # first + K  pr  last + d
            if k[1] not in inner_ok and not handled(A, p, ("elem", k, cells[Y.first]), begin): continue
            if inner_ok.get(k[1], True) is False: continue
            past = {"ugt": d >= 0, "uge": d >= 1, "eq": d >= 1}.get(pr, False)
            here = {"ugt": d >= -1, "uge": d >= 0, "eq": d >= 0}.get(pr, False) and handled(A, p, ("elem", k, cells[Y.first]), begin)
            if past or here: return True
    return False
# ---------------------------------------------------------------------------------------------------- the queue
DEQ = lambda d: "std::deque<unsigned int" in d.split("(")[0]
def nxt(p, t, v, N):
    """v is the ring successor of t"""
    s = add(t, const(1, t.w))
    a = v.single() if isinstance(v, Lin) else None
    if a and a[0] == "op" and a[1] == "and" and N & (N - 1) == 0 and (a[3] == s and a[4] == const(N - 1, 64) or a[4] == s and a[3] == const(N - 1, 64)): return True
    if a and a[0] == "op" and a[1] == "urem" and a[3] == s and a[4] == const(N, 64): return True
    if v == s: return p.facts.holds("ne", s, const(N, 64)) is True or p.facts.holds("ult", s, const(N, 64)) is True or p.facts.holds("ne", t, const(N - 1, 64)) is True or p.facts.holds("ult", t, const(N - 1, 64)) is True
    if v == const(0, 64): return p.facts.holds("eq", s, const(N, 64)) is True or p.facts.holds("eq", t, const(N - 1, 64)) is True or p.facts.holds("uge", s, const(N, 64)) is True
    return False
def dq(p, op): return [e for e in p.calls() if e.dname and re.search(r"^(\S.* )?std::deque<.*>::" + op + r"\b", e.dname)]
def queue(rep):
    M = prep.prepare(_core._c["bcs"], [re.compile(r"^w_q_\w+$")], [STDHEAVY, DEQ])
    from . import tracefile as T
    total = T.const_of(M, "w_sizeof_q")
    A = {n: analyze(M, "w_q_" + n, nonnull=(0,)) for n in ("new", "push", "pop", "empty", "del")}; q = arg(0)
    rep.count("functions", 5)
    def ld(o, n=8): return atom(("ld", Lin(64, o, q.t), n, 0), 8 * n)
    def cell(t):
        a = t.single() if isinstance(t, Lin) else None
        if a and a[0] == "ld" and isinstance(a[1], Lin) and a[1].t == q.t: return a[1].c
        return None
    # roles: flag cell, deque address, the two positions, base of the array
    flagc = None
    for p in A["empty"].paths:
        e = dq(p, "(empty|size)")
        if e:
            for c in p.facts.conds:
                for t in c[1:3]:
                    for a in (atoms_of(t) if isinstance(t, Lin) else atoms_of(atom(t, 1)) if isinstance(t, tuple) else ()):
                        if a[0] == "ld" and a[2] == 1 and isinstance(a[1], Lin) and a[1].t == q.t: flagc = a[1].c
    if flagc is None: raise AnalysisBroken("the queue's mode flag was not found")
    def mode(p):
        v, ne = cellval(p, Lin(64, flagc, q.t))
        if v is None and 0 in ne: v = 1
        return v
    amode = None; pos = dqa = None
    for p in A["empty"].paths:
        m = mode(p); e = dq(p, "(empty|size)")
        if e: dqa = e[0].args[0]; rep.ob("queue", "empty", isinstance(p.ret, Lin) and (p.ret == e[0].res and "::empty(" in e[0].dname or "::size(" in e[0].dname and is_zero(p.ret, e[0].res)) and m is not None, f"large: returns {p.ret}", where(p)); dmode = m
        else:
            r = p.ret.single() if isinstance(p.ret, Lin) else None; r = r[2].single() if r and r[0] == "zext" else r
            if r and r[0] == "cmp" and r[1] == "eq" and cell(r[2]) is not None and cell(r[3]) is not None and p.ret.c == 0: pos = {cell(r[2]), cell(r[3])}; amode = m
            elif p.ret.const:
                for c in p.facts.conds:
                    if c[0] in ("eq", "ne") and cell(c[1]) is not None and cell(c[2]) is not None and (p.ret.c & 1) == (c[0] == "eq"): pos = {cell(c[1]), cell(c[2])}; amode = m
    if not rep.ob("queue", "empty", pos is not None and len(pos) == 2 and amode is not None and dqa is not None, "empty is not 'both positions are equal' or the deque being empty"): return
    # pop
    tail = head = base = None; N = None
    for p in A["pop"].paths:
        w = where(p)
        if mode(p) == dmode:
            f, pf = dq(p, "(front|back)"), dq(p, "pop_(front|back)")
            ok = len(f) == 1 and len(pf) == 1 and f[0].args[0] == dqa and pf[0].args[0] == dqa and ("front" in f[0].dname.split("(")[0]) == ("pop_front" in pf[0].dname) and reads(p.ret, f[0].res, 4) and p.events.index(f[0]) < p.events.index(pf[0])
            rep.ob("queue", "pop_front", ok and not writes(p, q, set()), f"large: returns {p.ret} after {[str(e) for e in p.events]}"[:400], w); continue
        a = p.ret.single() if isinstance(p.ret, Lin) else None
        t = next((c for c in pos if a and a[0] == "ld" and a[2] == 4 and dict(a[1].t).get(("ld", Lin(64, c, q.t), 8, 0)) == 4), None)
        if not rep.ob("queue", "pop_front", t is not None and (tail in (None, t)), f"small: returns {p.ret}, which is not the entry at one of the two positions", w): return
        tail = t; head = (pos - {t}).pop(); b = sub(a[1], scale(ld(t), 4)); base = b.c
        N = (min(c for c in list(pos) + [total] if c > base) - base) // 4
        v = [e for e in p.events if e.kind == "store"]
        # the ring size is the modulus of the successor
        m = modulus(v[-1].val, ld(t), p) if v else None
        if not rep.ob("queue", "pop_front", len(v) == 1 and v[0].addr == Lin(64, tail, q.t) and m is not None and 1 < m <= N and nxt(p, ld(t), v[0].val, m), f"small: {[str(e) for e in v]} (room for {N} labels)"[:300], w): return
        N = m
    for p in A["new"].paths:
        st = {sub(e.addr, q).c: e for e in p.events if e.kind == "store" and isinstance(e.addr, Lin) and sub(e.addr, q).const}
        g = lambda o: st[o].val if o in st else None
        ok = g(head) is not None and g(head) == g(tail) and g(head).const and g(head).c < N and g(flagc) is not None and g(flagc).const and bool(g(flagc).c) == bool(amode)
        rep.ob("queue", "constructor", ok, f"the queue starts with positions {g(head)}, {g(tail)}, mode {g(flagc)}", where(p))
    # push
    kinds = set(); l = at(A["push"], 1)
    for p in A["push"].paths:
        w = where(p); m = mode(p)
        first = [c for c in p.facts.conds]
        if m == dmode:
            e = dq(p, "(push_back|emplace_back)"); kinds.add("large")
            rep.ob("queue", "push_back", len(e) == 1 and e[0].args[0] == dqa and val_at(A["push"], p, e[0]) == l and not writes(p, q, set()), f"large: {[str(x) for x in e]}", w); continue
        full = None
        for c in p.facts.conds:
            if c[0] in ("eq", "ne") and isinstance(c[1], Lin) and isinstance(c[2], Lin):
                for x, y in ((c[1], c[2]), (c[2], c[1])):
                    if y == ld(tail) and nxt(p, ld(head), x, N): full = c[0] == "eq"
        ev = dq(p, ".*")
        if not ev and p.end == "ret":
            kinds.add("small"); st = {e.addr: e for e in p.events if e.kind == "store" and base_of(e.addr) == ("arg", 0)}
            slot = add(Lin(64, base, q.t), scale(ld(head), 4))
            ok = full is False and slot in st and st[slot].val == l and st[slot].size == 4 and Lin(64, head, q.t) in st and nxt(p, ld(head), st[Lin(64, head, q.t)].val, N) and len(st) == 2
            rep.ob("queue", "push_back", ok, f"small: {[str(e) for e in st.values()]} (path: {conds(p)[:200]})", w); continue
        # growing
        mk = dq(p, "(push_back|emplace_back)")
        if isinstance(p.end, tuple):
            kinds.add("move")
            h, t = mem_pos(p, head, q), mem_pos(p, tail, q)
            e = mk[-1] if mk else None; v = val_at(A["push"], p, e) if e else None
            st = [x for x in p.events if x.kind == "store" and base_of(x.addr) == ("arg", 0)]
            a = v.single() if isinstance(v, Lin) else None
            ok = len(mk) == 1 and len(st) == 1 and st[0].addr == Lin(64, tail, q.t) and a and a[0] == "ld" and a[2] == 4
            if ok:
                i = [x for x, k in a[1].t if k == 4 and x[0] == "ld" and x[1] == Lin(64, tail, q.t)]
                ok = len(i) == 1 and sub(a[1], scale(atom(i[0], 64), 4)) == Lin(64, base, q.t) and nxt(p, atom(i[0], 64), st[0].val, N) and e.args[0] != dqa
                ok = ok and any(c[0] == "ne" and atom(i[0], 64) in (c[1], c[2]) for c in p.facts.conds)
            rep.ob("queue", "push_back", bool(ok), f"growing: one label moved per round: {[str(x) for x in mk + st]}"[:400], w); continue
        if p.end != "ret": rep.ob("queue", "push_back", False, f"ends with {p.end}", w); continue
        kinds.add("grown")
        cons = [e for e in dq(p, "deque") if e.args[0] == dqa]; st = [x for x in p.events if x.kind == "store" and base_of(x.addr) == ("arg", 0)]
        asg = [e for e in dq(p, "(swap|operator=)") if dqa in e.args]
        loc = mk[0].args[0] if mk else None
        done = any(c[0] == "eq" and all(isinstance(x, Lin) and x.single() and x.single()[0] == "ld" for x in c[1:3]) and {x.single()[1].c for x in c[1:3]} == {head, tail} for c in p.facts.conds)
        ok = done and len(mk) == 1 and val_at(A["push"], p, mk[0]) == l and (loc == dqa or len(cons) == 1 and (len(cons[0].args) > 1 and cons[0].args[1] == loc or asg and set(asg[0].args[:2]) == {loc, dqa}))
        ok = ok and [x for x in st if x.addr == Lin(64, flagc, q.t)] and bool(st[-1].val.c) == bool(dmode) and len(st) == 1 and not [e for e in dq(p, "(pop_front|pop_back|clear)")]
        if ok and cons and loc != dqa: ok = p.events.index(mk[0]) < p.events.index(asg[0] if asg else cons[0])
        rep.ob("queue", "push_back", bool(ok), f"growing: {[str(x) for x in p.events]}"[:500], w)
    rep.ob("queue", "push_back", {"small", "large", "move", "grown"} <= kinds, f"cases found: {sorted(kinds)}")
def is_zero(t, x):
    a = t.single()
    if a and a[0] == "zext": t = a[2]; a = t.single()
    return bool(a and t.c == 0 and a[0] == "cmp" and (a[1] == "eq" and a[2] == x and a[3] == const(0, 64) or a[1] == "ult" and a[2] == x and a[3] == const(1, 64)))
def mem_pos(p, o, q): return None
def writes(p, q, ok): return [e for e in p.events if e.kind == "store" and base_of(e.addr) == ("arg", 0) and e.addr not in ok]
def val_at(A, p, e):
    """the label a push by reference or by value passes"""
    x = e.args[1]; b = base_of(x) if isinstance(x, Lin) else None
    if isinstance(x, Lin) and x.w == 32: return x
    return mem_at(A, p, e, x, 4)
def modulus(v, t, p):
    a = v.single() if isinstance(v, Lin) else None
    if a and a[0] == "op" and a[1] in ("and", "urem"):
        m = next((x.c for x in a[3:5] if isinstance(x, Lin) and x.const), None)
        return None if m is None else m + 1 if a[1] == "and" and (m & (m + 1)) == 0 else m if a[1] == "urem" else None
    for c in p.facts.conds:
        if c[0] in ("eq", "ne", "ult", "uge") and isinstance(c[1], Lin) and isinstance(c[2], Lin) and c[2].const:
            if c[1] == add(t, const(1, 64)): return c[2].c
            if c[1] == t: return c[2].c + 1
    return None
