"""Value-flow analysis of the sanitizer's comparison, search and conversion wrappers (LLVM IR, helpers inlined).  A comparison loop
is read as one generic iteration: why it goes on, why it ends and what it returns are compared with the definition of the library
function; a wrapper that leaves the work to the library passes arguments and result through.  The label of the result is resolved
to the set of regions and parameters it combines and compared with the bytes examined on that path."""
from .shadow import *
MIN_OBLIGATIONS = 200
COMPARE = {"memcmp": (2, False, False), "bcmp": (2, False, False), "strcmp": (None, True, False), "strncmp": (2, True, False), "strcasecmp": (None, True, True), "strncasecmp": (2, True, True)}
CONVERT = {"strtol": 2, "strtoll": 2, "strtoul": 2, "strtoull": 2, "strtod": None}
Z64 = const(0, 64)
def one8(t, addr):
    """t is the byte at addr"""
    a = t.single() if isinstance(t, Lin) else None
    return bool(a and a[0] == "ld" and a[2] == 1 and a[1] == addr)
def mask(t, m):
    a = t.single()
    if a and a[0] == "op" and a[1] == "and":
        for x, y in ((a[3], a[4]), (a[4], a[3])):
            if isinstance(y, Lin) and y.const and y.c == m: return x
def ext(t):
    """('z'|'s'|'n', byte term): how a value is made from a byte"""
    if not isinstance(t, Lin): return None
    a = t.single()
    if a and a[0] in ("zext", "sext") and a[2].w == 8: return a[0][0], a[2]
    if t.w == 8: return "n", t
    m = mask(t, 255)
    if m is not None:
        b = m.single()
        return ("z", b[2]) if b and b[0] in ("zext", "sext") and b[2].w == 8 else ("z", ("low8", m))
    if a and a[0] == "op" and a[1] == "ashr" and a[4].const and a[4].c == t.w - 8:
        return "s", ("low8", scale(a[3], 1)) if False else ("low8", unscale(a[3], 1 << (t.w - 8)))
    if a and a[0] == "op" and a[1] == "lshr" and a[4].const and a[4].c == t.w - 8: return "z", ("low8", unscale(a[3], 1 << (t.w - 8)))
def unscale(t, k):
    m = 1 << t.w
    return Lin(t.w, t.c // k, tuple((a, (c % m) // k) for a, c in t.t)) if t.c % k == 0 and all((c % m) % k == 0 for _, c in t.t) else t
def low(t, w=8):
    """the low byte of t as a canonical key, whatever its extension"""
    if isinstance(t, tuple): return t
    a = t.single()
    if a and a[0] == "trunc" and t.w == 8: return ("low8", a[2])
    if a and a[0] == "ld" and a[2] == 1: return ("byte", a[1])
    return ("t", t)
def byte_of(t):
    e = ext(t)
    if e is None: return None
    k = low(e[1])
    if k[0] == "low8" and isinstance(k[1], Lin):
        a = k[1].single()
        if a and a[0] in ("zext", "sext") and isinstance(a[2], Lin) and a[2].w == 8: k = low(a[2])
        elif a and a[0] == "ld": k = ("ldlow", a[1])
    return e[0], k
def folded(p, t):
    """the key of a byte after case folding: ('fold', address of the byte), or None"""
    e = ext(t) if isinstance(t, Lin) else None
    x = e[1] if e else t
    if isinstance(x, tuple): x = x[1]
    a = x.single() if isinstance(x, Lin) else None
    if a and a[0] == "trunc": x = a[2]; a = x.single()
    if a and a[0] == "ld" and a[2] == 4:
        # table lookup: *[table + 4*zext64(byte)]
        for b, c in a[1].t:
            if c == 4 and b[0] == "zext" and isinstance(b[2], Lin) and b[2].w == 8:
                y = b[2].single()
                if y and y[0] == "ld" and y[2] == 1: return (e[0] if e else "n"), ("fold", y[1])
    for ev in p.calls("tolower"):
        if ev.res == x or (a and ev.res == atom(a, 32)):
            b = byte_of(ev.args[0])
            if b and b[0] == "z" and b[1][0] == "byte": return (e[0] if e else "n"), ("fold", b[1][1])
def relations(p):
    """equalities and inequalities between byte keys known on the path (only between values extended the same way)"""
    eqs, nes = set(), set()
    for c in p.facts.conds:
        if c[0] not in ("eq", "ne"): continue
        a, b = c[1], c[2]
        if isinstance(a, Lin) and isinstance(b, Lin) and b.const and not b.c and len(a.t) == 2 and not a.c and sorted(k for _, k in a.t) == [-1, 1]: a, b = (atom(x, a.w) for x, _ in a.t)     # a difference compared with zero
        ka, kb = key(p, a), key(p, b)
        if ka is None and isinstance(a, Lin) and kb == ("zero",): ka = shifted(a)
        if kb is None and isinstance(b, Lin) and ka == ("zero",): kb = shifted(b)
        if ka is None or kb is None: continue
        if ka == ("zero",) or kb == ("zero",): r = (ka[-1] if ka != ("zero",) else 0, kb[-1] if kb != ("zero",) else 0)
        elif ka[0] == kb[0]: r = (ka[1], kb[1])
        else: continue
        (eqs if c[0] == "eq" else nes).add(frozenset(r) if r[0] != r[1] else frozenset(r))
    return eqs, nes
def shifted(t):
    u = unscale(t, 1 << (t.w - 8)) if t.w > 8 else t
    return ("n", ("low8", u)) if u is not t else None
def key(p, t):
    if not isinstance(t, Lin): return None
    if t.const: return ("zero",) if t.c == 0 else None
    f = folded(p, t)
    if f: return f
    return byte_of(t)
class Rel:
    def __init__(s, p):
        s.eqs, s.nes = relations(p); s.cls = {}
        for e in s.eqs:
            x = list(e)
            if len(x) == 2 and s.find(x[0]) != s.find(x[1]): s.cls[s.find(x[0])] = s.find(x[1])
    def find(s, x):
        while x in s.cls: x = s.cls[x]
        return x
    def same(s, a, b): return s.find(a) == s.find(b)
    def differ(s, a, b): return any({s.find(x) for x in e} == {s.find(a), s.find(b)} for e in s.nes if len(e) == 2)
    def impossible(s): return any(len({s.find(x) for x in e}) == 1 for e in s.nes)
def strict(p):
    """the setting strict_data_dependencies on this path"""
    for c in p.facts.conds:
        for t in c[1:]:
            if isinstance(t, Lin) and any(a[0] == "ld" and any(x[0] == "glob" and "flags" in x[1] for x in atoms_of(a[1])) for a in atoms_of(t) if a[0] == "ld"):
                h = p.facts.holds("ne", t, const(0, t.w))
                if h is None: h = {"eq": False, "ne": True}.get(c[0])
                if h is not None: return h
    return None
def leaves(A, p, t, depth=0):
    """what a label combines: ('read', address, length) and parameters; None if not understood"""
    if isinstance(t, Lin) and t.const: return set() if t.c == 0 else None
    a = t.single() if isinstance(t, Lin) else None
    if a and a[0] == "arg": return {("arg", a[1])}
    if a and a[0] == "op" and a[1] == "or":
        x, y = leaves(A, p, a[3]), leaves(A, p, a[4]); return None if x is None or y is None else x | y
    for e in p.calls():
        if e.res != t or e.res is None: continue
        if (e.callee or "") in ("dfsan_union", "__dfsan_union"):
            x, y = leaves(A, p, e.args[0], depth + 1), leaves(A, p, e.args[1], depth + 1); return None if x is None or y is None else x | y
        if (e.callee or "") == "dfsan_read_label": return {("read", e.args[0], e.args[1])}
    return None
def covers(p, got, want):
    """got (leaves) is exactly want, lengths compared under the path's facts; parameters whose label is known zero may be missing"""
    F = p.facts; lens = {e.res.single(): atom(("strlen of", e.args[0]), 64) for e in p.calls() if (e.callee or "") == "strlen" and e.res is not None}
    canon = lambda t: terms.subst(t, lambda a: lens.get(a))
    def m(x, y):
        if x[0] != y[0]: return False
        if x[0] == "arg": return x[1] == y[1]
        return x[1] == y[1] and (canon(x[2]) == canon(y[2]) or F.holds("eq", x[2], y[2]) is True)
    miss = [y for y in want if not any(m(x, y) for x in got) and not (y[0] == "arg" and F.holds("eq", atom(y, 32), const(0, 32)) is True) and not (y[0] == "read" and F.holds("eq", y[2], Z64) is True)]
    extra = [x for x in got if not any(m(x, y) for y in want)]
    if miss: return f"the label of {txt(miss[0])} is missing"
    if extra: return f"the label of {txt(extra[0])} is added"
def txt(x): return f"parameter {x[1]}" if x[0] == "arg" else f"the {x[2]} bytes at {x[1]}"
def label(rep, A, p, site, want_loose, want_strict):
    l = A.load(p, at(A, len(A.F.args) - 1), 4); st = strict(p); w = where(p)
    got = leaves(A, p, l)
    if not rep.ob("label", site, got is not None, f"the label of the result is {l} ({conds(p)[-200:]})", w): return
    if st is None:
        bad = "the setting strict_data_dependencies is not consulted" if want_loose else (None if not got else covers(p, got, set()))
    elif st: bad = None if any(covers(p, got, x) is None for x in want_strict) else covers(p, got, want_strict[0])
    else: bad = covers(p, got, want_loose)
    rep.ob("label", site, bad is None, f"{bad} ({conds(p)[-260:]})", w)
def delegated(A, p, names, nargs):
    cs = [e for e in p.calls() if re.match(r"^(__isoc(23|99)_)?(%s)$" % "|".join(names), e.callee or "")]
    return cs[0] if len(cs) == 1 else None
def check(rep):
    rep.rule("goes-on", "a comparison or search goes on only past equal (other) bytes before the end of the string and within the limit")
    rep.rule("ends", "it ends at a difference (match), at the end of the string, or at the limit")
    rep.rule("value", "the result is that of the library function: bytes compared as unsigned char, the address of the first match, the converted value and its end")
    rep.rule("label", "the result is labelled with everything that was examined to obtain it, or only with data it is made of when strict_data_dependencies is set")
    rep.rule("call", "work left to the library is done by one call of the same function with the program's arguments")
    rep.assumptions += ["strings are terminated", "case folding is the C library's tolower", "origin tracking is off", "an installed comparison hook does not change the compared bytes"]
    for name in COMPARE: compare(rep, name)
    strchr(rep); finders(rep)
    for name in CONVERT: convert(rep, name)
def need(name, rep):
    A = custom_wrapper(name)
    if A is None: raise AnalysisBroken(f"no wrapper __dfsw_{name}")
    rep.count("wrappers"); rep.count("paths", len(A.paths)); return A
def differs(p, a, b):
    """a != b is known, also as an (in)equality of both displaced by the same amount"""
    d = sub(a, b)
    return p.facts.holds("ne", a, b) is True or any(c[0] == "ne" and isinstance(c[1], Lin) and isinstance(c[2], Lin) and c[1].w == 64 and sub(c[1], c[2]) in (d, scale(d, -1)) for c in p.facts.conds)
def equals(p, a, b):
    d = sub(a, b)
    return p.facts.holds("eq", a, b) is True or any(c[0] == "eq" and isinstance(c[1], Lin) and isinstance(c[2], Lin) and c[1].w == 64 and sub(c[1], c[2]) in (d, scale(d, -1)) for c in p.facts.conds)
def compare(rep, name):
    n, string, fold = COMPARE[name]; A = need(name, rep); site = "__dfsw_" + name; a0, a1 = at(A, 0), at(A, 1); lim = at(A, n) if n else None
    loops = {p.end[1] for p in A.paths if p.end[0] == "back"}
    nargs = 3 if n else 2; loop = 0
    for p in A.paths:
        F = p.facts; w = where(p); R = Rel(p)
        if R.impossible(): continue
        if p.end not in ("ret",) and p.end[0] != "back": rep.ob("value", site, False, f"does not return ({conds(p)[:200]})", w); continue
        d = delegated(A, p, [name] + (["memcmp"] if name == "bcmp" else []), nargs)
        if d is not None:
            if p.end == "ret":
                rep.ob("call", site, list(d.args) == [at(A, i) for i in range(nargs)], f"{name} gets {d.args}", w)
                rep.ob("value", site, same_value(p, p.ret, d.res), f"returns {p.ret}", w)
                l = leaves(A, p, A.load(p, at(A, len(A.F.args) - 1), 4)); rep.ob("label", site, l is not None and (strict(p) is True or {x[1] for x in l if x[0] == "read"} >= {a0, a1}), "labels of the compared bytes are missing", w)
            continue
        us = {a[1] for c in F.conds for t in c[1:] if isinstance(t, Lin) for a in atoms_of(t) if a[0] == "K"} | ({p.end[1]} if p.end[0] == "back" else set())
        if not us:
            # returns before looking at anything
            rep.ob("ends", site, lim is not None and F.holds("eq", lim, Z64) is True, f"returns without comparing ({conds(p)[:200]})", w)
            rep.ob("value", site, p.ret == const(0, 32), f"returns {p.ret} for an empty comparison", w); label(rep, A, p, site, set(), [set()]); continue
        if not rep.ob("goes-on", site, len(us) == 1, "more than one loop over the bytes", w): continue
        u = us.pop(); K = atom(("K", u), 64); kind = "fold" if fold else "byte"
        x, y = (kind, add(K, a0)), (kind, add(K, a1)); bx, by = ("byte", add(K, a0)), ("byte", add(K, a1))
        eqv, dif = R.same(x, y), R.differ(x, y)
        if not eqv and R.same(bx, by): eqv = True
        ended = R.same(bx, 0) or R.same(by, 0); alive = R.differ(bx, 0) or R.differ(by, 0)
        inside = lim is None or F.holds("ult", K, lim) is True or (F.holds("ne", K, lim) is True and F.holds("ule", K, lim) is True) or (F.holds("ule", K, sub(lim, const(1, 64))) is True and F.holds("ne", lim, Z64) is True)
        if lim is not None and not inside:
            # induction over the iterations: the index starts at 0 and every iteration that goes on has tested it (or the next one)
            bs = [q for q in A.paths if q.end == ("back", u)]
            inside = (all(differs(q, add(K, const(1, 64)), lim) for q in bs) and F.holds("ne", lim, Z64) is True) or (all(differs(q, K, lim) for q in bs) and differs(p, K, lim))
        past = lim is not None and not inside and (equals(p, K, lim) or F.holds("uge", K, lim) is True)
        last = lim is not None and equals(p, add(K, const(1, 64)), lim) or (lim is not None and F.holds("uge", add(K, const(1, 64)), lim) is True and inside)
        if p.end[0] == "back":
            loop += 1
            rep.ob("goes-on", site, eqv, f"goes on although the bytes may differ ({conds(p)[-260:]})", w)
            if string: rep.ob("goes-on", site + " end of string", alive, f"goes on past the end of the string ({conds(p)[-260:]})", w)
            if lim is not None:
                # the next index is still within the limit, or is tested against it before it is used
                rep.ob("goes-on", site + " limit", inside and not last, f"goes on past the limit ({conds(p)[-260:]})", w)
            continue
        if past and not dif:
            rep.ob("ends", site, F.holds("ule", K, lim) is True or equals(p, K, lim), "ends beyond the limit", w); rep.ob("value", site, p.ret == const(0, 32), f"returns {p.ret} for equal bytes", w); B = lim
        else:
            rep.ob("ends", site + " limit", inside, f"compares beyond the limit ({conds(p)[-260:]})", w)
            rep.ob("ends", site, dif or (string and ended) or last, f"ends although the bytes compared are equal and more follow ({conds(p)[-260:]})", w)
            rep.ob("value", site, value(p, R, p.ret, x, y, dif, eqv, fold), f"returns {p.ret} ({conds(p)[-260:]})", w); B = add(K, const(1, 64))
        label(rep, A, p, site, {("read", a0, B), ("read", a1, B)}, [set()])
def value(p, R, r, x, y, dif, eqv, fold):
    """r has the sign of the unsigned difference of the bytes x and y"""
    if not isinstance(r, Lin): return False
    if r.const:
        if r.c == 0: return eqv and not dif
        for c in p.facts.conds:
            ka, kb = key(p, c[1]), key(p, c[2])
            if ka is None or kb is None or len(ka) < 2 or len(kb) < 2 or "s" in (ka[0], kb[0]): continue
            for (a, b, less) in ((ka[1], kb[1], c[0] in ("ult", "slt") and (c[0][0] == "u" or c[1].w > 8)), (kb[1], ka[1], c[0] in ("ugt", "sgt") and (c[0][0] == "u" or c[1].w > 8))):
                if less and (a, b) == (x, y): return r.sc < 0
                if less and (a, b) == (y, x): return r.sc > 0
            # with the bytes different, "not above" is "below"
            for (a, b, le) in ((ka[1], kb[1], c[0] in ("ule", "sle")), (kb[1], ka[1], c[0] in ("uge", "sge"))):
                if le and dif and (a, b) == (x, y): return r.sc < 0
                if le and dif and (a, b) == (y, x): return r.sc > 0
        return False
    if eqv and p.facts.holds("eq", r, const(0, r.w)) is True: return True
    if len(r.t) != 2 or r.c: return False
    (a, ca), (b, cb) = r.t
    if ca == -1: a, b, ca, cb = b, a, cb, ca
    if (ca, cb) != (1, -1): return False
    ka, kb = key(p, atom(a, r.w)), key(p, atom(b, r.w))
    return ka is not None and kb is not None and ka[0] == "z" and kb[0] == "z" and (ka[1], kb[1]) == (x, y)
def strchr(rep):
    A = need("strchr", rep); site = "__dfsw_strchr"; s = at(A, 0); c = ("low8", at(A, 1)); w0 = len(A.F.args)
    for p in A.paths:
        F = p.facts; w = where(p); R = Rel(p)
        if R.impossible(): continue
        d = delegated(A, p, ["strchr"], 2)
        if d is not None:
            if p.end == "ret": finder(rep, A, p, "strchr", d)
            continue
        us = {a[1] for q in F.conds for t in q[1:] if isinstance(t, Lin) for a in atoms_of(t) if a[0] == "K"} | ({p.end[1]} if p.end[0] == "back" else set())
        if not rep.ob("goes-on", site, len(us) == 1 and (p.end == "ret" or p.end[0] == "back"), f"no single loop over the bytes ({conds(p)[-200:]})", w): continue
        K = atom(("K", us.pop()), 64); b = ("byte", add(K, s)); hit, end = R.same(b, c), R.same(b, 0)
        if p.end[0] == "back":
            rep.ob("goes-on", site, R.differ(b, c), f"goes on although the byte may be the one searched for ({conds(p)[-200:]})", w); rep.ob("goes-on", site + " end of string", R.differ(b, 0), "goes on past the end of the string", w); continue
        if p.ret == Z64: rep.ob("value", site, end and (R.differ(b, c) or R.differ(c, 0)), f"null is returned although the character may be there ({conds(p)[-200:]})", w)
        else: rep.ob("value", site, p.ret == add(K, s) and (hit or (end and R.same(c, 0))), f"returns {p.ret} ({conds(p)[-200:]})", w)
        label(rep, A, p, site, {("read", s, add(K, const(1, 64))), ("arg", 2), ("arg", 3)}, [{("arg", 2)}] + ([set()] if p.ret == Z64 else []))
def slen(p, x, lab=None):
    r = [e.res for e in p.calls("strlen") if (e.callee or "") == "strlen" and e.args[0] == x]
    return r[0] if r else atom(("strlen of", x), 64)
def finders(rep):
    for name in ("memchr", "strrchr", "strstr", "strpbrk", "strlen"):
        A = need(name, rep)
        for p in A.paths:
            if not rep.ob("call", "__dfsw_" + name, p.end == "ret", f"does not return ({conds(p)[:200]})", where(p)): continue
            d = delegated(A, p, [name], 0) if name != "strlen" else next((e for e in p.calls() if (e.callee or "") == "strlen" and e.res == p.ret), None)
            if rep.ob("call", "__dfsw_" + name, d is not None, f"{name} is not called exactly once", where(p)): finder(rep, A, p, name, d)
def finder(rep, A, p, name, d):
    site = "__dfsw_" + name; F = p.facts; w = where(p); n = (len(A.F.args) - 1) // 2; s = at(A, 0); r = d.res
    rep.ob("call", site, list(d.args) == [at(A, i) for i in range(n)], f"{name} gets {d.args}", w)
    rep.ob("value", site, same_value(p, p.ret, r), f"returns {p.ret} instead of what {name} found", w)
    one = const(1, 64); nul = F.holds("eq", r, Z64) if name != "strlen" else False
    pars = {("arg", n), ("arg", n + 1)}
    end = add(slen(p, s), one)
    if name == "strlen": want, st = {("read", s, add(r, one))}, [set()]
    else: st = [{("arg", n)}] + ([set()] if nul is True else [])
    if strict(p) is True and nul is None and name != "strlen": rep.ob("label", site, False, f"a result that may be null is labelled alike ({conds(p)[-200:]})", w) if name != "strchr" else None
    if name in ("memchr", "strchr"): want = {("read", s, at(A, 2) if name == "memchr" else end) if nul else ("read", s, add(sub(r, s), one))} | pars
    elif name == "strrchr": want = {("read", s, end)} | pars
    elif name == "strstr":
        nd = at(A, 1); want = {("read", s, end if nul else sub(add(r, slen(p, nd)), s)), ("read", nd, add(slen(p, nd), one))} | pars
    elif name == "strpbrk": want = {("read", s, end if nul else add(sub(r, s), one)), ("read", at(A, 1), add(slen(p, at(A, 1)), one))} | pars
    label(rep, A, p, site, want, st)
def convert(rep, name):
    A = need(name, rep); site = "__dfsw_" + name; base = CONVERT[name]; n = 3 if base else 2; s, end = at(A, 0), at(A, 1)
    for p in A.paths:
        F = p.facts; w = where(p)
        if not rep.ob("call", site, p.end == "ret", f"does not return ({conds(p)[:200]})", w): continue
        d = delegated(A, p, [name], n)
        if not rep.ob("call", site, d is not None, f"{name} is not called exactly once", w): continue
        rep.ob("call", site, d.args[0] == s and (base is None or d.args[2] == at(A, base)), f"{name} gets {d.args}", w)
        rep.ob("value", site, same_value(p, p.ret, d.res), f"returns {p.ret}", w)
        i = p.events.index(d); st0 = State(); after = p.events[i + 1].mem if i + 1 < len(p.events) and getattr(p.events[i + 1], "mem", None) is not None else p.mem
        st0.mem = after; st0.escaped = set(); st0.facts = F; st0.env = p.env
        stop = A._load(st0, d.args[1], 8, None)
        if F.holds("eq", end, Z64) is not True and d.args[1] != end:
            v = [e.val for e in p.events[i + 1:] if e.kind == "store" and e.addr == end and e.size == 8]; v = v[-1] if v else "nothing"
            rep.ob("value", site + " end", F.holds("ne", end, Z64) is True and v == stop, f"the end of the conversion stored is {v} ({conds(p)[-200:]})", w)
        l = A.load(p, at(A, len(A.F.args) - 1), 4); got = leaves(A, p, l)
        if not rep.ob("label", site, got is not None, f"the label of the result is {l}", w): continue
        conv = F.holds("ult", s, stop); conv = conv if conv is not None else (None if F.holds("eq", s, stop) is None else not F.holds("eq", s, stop))
        if conv is False: rep.ob("label", site, covers(p, got, set()) is None, f"nothing was converted but the result is labelled ({conds(p)[-200:]})", w); continue
        b = mem_value(A, p, stop); h = F.holds("eq", b, const(0, 8)) if b is not None else None
        ln = sub(stop, s); want = {("read", s, add(ln, const(1, 64)) if h else ln)} | ({("arg", n + base)} if base else set())
        bad = covers(p, got, want) if h is not None and conv is True else "it is not decided whether digits were converted and whether the terminator was examined"
        rep.ob("label", site, bad is None, f"{bad} ({conds(p)[-200:]})", w)
def mem_value(A, p, addr):
    for c in p.facts.conds:
        for t in c[1:]:
            if one8(t, addr): return t
