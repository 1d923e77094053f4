"""Path-sensitive value-flow analysis of start-up over an abstract content of every string object (empty, value of an
environment variable, literal, concatenation): which settings reach the tracing object under which conditions."""
from . import life
from .rt import *
from engine import llvmc
MIN_OBLIGATIONS = 60
NO = re.compile(r"::c_str\(|^(printf|puts|putchar|fprintf|fwrite|fputs|fputc|fflush|putc)$|^llvm\.(lifetime|dbg|assume)|::~\w+\(|^atexit$")
STREAMS = {"stdout": ("POLYTRACKER_STDOUT_SINK", "/dev/stdout", 1), "stderr": ("POLYTRACKER_STDERR_SINK", "/dev/stderr", 2), "stdin": ("POLYTRACKER_STDIN_SOURCE", "/dev/stdin", 0)}
DB, DBDEF, ARGV = "POLYDB", "polytracker.tdag", "POLYTRACKER_TAINT_ARGV"
def lit(M, t):
    b = base_of(t) if isinstance(t, Lin) else None
    if not b or b[0] != "glob" or not M.global_is_const(b[1]): return None
    d = sub(t, atom(b, 64))
    if not d.const: return None
    raw = M.global_bytes(b[1])
    if raw is None: return None
    raw = raw[d.c:]
    return bytes(raw[:raw.index(0)]).decode("latin1") if 0 in raw else None
class World:
    """replay of one path over string contents"""
    def __init__(s, M, A, p):
        s.M, s.A, s.p = M, A, p
        s.obj = {}; s.env = {}; s.null = {}; s.tests = []; s.impossible = False; s.opens = []; s.ctor = None; s.sources = []; s.filenos = {}
        for e in p.events:
            if e.kind == "call": s.call(e)
        s.facts()
    def content(s, t):
        """content of what a char pointer or string object denotes"""
        if not isinstance(t, Lin): return ("?",)
        a = t.single()
        if a in s.env: return ("env", s.env[a])
        l = lit(s.M, t)
        if l is not None: return ("lit", l)
        if t in s.obj: return s.obj[t]
        if t.const and t.w == 8: return ("lit", chr(t.c))
        if a and a[0] == "call":
            e = [x for x in s.p.events if x.kind == "call" and x.res == t]
            if e and re.search(r"::(c_str|data)\(", e[0].dname or ""): return s.content(e[0].args[0])
            if e and re.search(r"basic_string<.*>::(operator=|assign|operator\+=|append)", e[0].dname or ""): return s.content(e[0].args[0])
        return ("?",)
    def cat(s, *xs):
        out = ()
        for x in xs: out += x[1] if x[0] == "cat" else (x,)
        # adjacent literals
        r = []
        for x in out:
            if x == ("lit", "") or x == ("empty",): continue
            if x[0] == "lit" and r and r[-1][0] == "lit": r[-1] = ("lit", r[-1][1] + x[1])
            else: r.append(x)
        return r[0] if len(r) == 1 else (("cat", tuple(r)) if r else ("empty",))
    def call(s, e):
        d = e.dname or e.callee or ""; n = e.callee or ""
        if n == "getenv" or n == "secure_getenv":
            v = lit(s.M, e.args[0]); a = e.res.single()
            s.env[a] = v; s.null.setdefault(v, s.p.facts.holds("eq", e.res, const(0, 64))); return
        if n == "fileno" or n == "fileno_unlocked":
            a = e.args[0].single()
            if a and a[0] == "ld": s.filenos[e.res] = (life.glob(a[1]) or "?")
            return
        if re.match(r"std::(__cxx11::)?basic_string<.*>::basic_string(<.*>)?\(", d):
            sig = d[re.match(r"std::(__cxx11::)?basic_string<.*>::basic_string(<.*>)?\(", d).end():]
            s.obj[e.args[0]] = ("empty",) if sig.startswith(")") or sig.startswith("std::allocator") else s.content(e.args[1]); return
        if re.match(r"std::(__cxx11::)?basic_string<.*>::(operator=|assign)\(", d): s.obj[e.args[0]] = s.content(e.args[1]) if len(e.args) == 2 else ("?",); return
        if re.match(r"std::(__cxx11::)?basic_string<.*>::(operator\+=|append|push_back)\(", d): s.obj[e.args[0]] = s.cat(s.content(e.args[0]), s.content(e.args[1])) if len(e.args) == 2 else ("?",); return
        if re.match(r"std::(__cxx11::)?basic_string<.*>::(clear)\(", d): s.obj[e.args[0]] = ("empty",); return
        if re.match(r"(std::(__cxx11::)?basic_string<.*> )?std::operator\+<", d): s.obj[e.args[0]] = s.cat(s.content(e.args[1]), s.content(e.args[2])); return
        if re.match(r"std::(__cxx11::)?to_string\(", d): s.obj[e.args[0]] = ("int", e.args[1]); return
        if re.match(r"std::filesystem::(__cxx11::)?path::path", d) and len(e.args) >= 2:
            x = e.args[1]
            if re.search(r"path<char( const)?\*", d):     # by reference to the pointer
                st = [y for y in s.p.events[:s.p.events.index(e)] if y.kind == "store" and y.addr == x]
                if st: x = st[-1].val
            s.obj[e.args[0]] = s.content(x); return
        if re.match(r"std::filesystem::(__cxx11::)?path::operator=", d): s.obj[e.args[0]] = s.content(e.args[1]); return
        if n in ("snprintf", "sprintf", "__snprintf_chk", "__sprintf_chk"):
            f = [i for i, a in enumerate(e.args) if lit(s.M, a) is not None]
            m = re.fullmatch(r"(.*?)%d(.*)", lit(s.M, e.args[f[0]])) if f else None
            s.obj[e.args[0]] = s.cat(("lit", m.group(1)), ("int", e.args[f[0] + 1]), ("lit", m.group(2))) if m and len(e.args) > f[0] + 1 else ("?",); return
        if re.search(r"basic_string<.*>::empty\(", d): s.tests.append(("empty", s.content(e.args[0]), None, s.truth(e.res))); return
        if re.search(r"basic_string<.*>::(size|length)\(|^strlen$", d) and e.res is not None:
            h = s.p.facts.holds("eq", e.res, const(0, 64))
            if h is not None: s.tests.append(("empty", s.content(e.args[0]), None, h))
            return
        if re.search(r"std::operator==<", d): s.tests.append(("eq", s.content(e.args[0]), s.content(e.args[1]), s.truth(e.res))); return
        if re.search(r"std::operator!=<", d):
            t = s.truth(e.res); s.tests.append(("eq", s.content(e.args[0]), s.content(e.args[1]), None if t is None else not t)); return
        if re.search(r"basic_string<.*>::compare\(char const\*\)|basic_string<.*>::compare\(std::(__cxx11::)?basic_string<[^(]*&\)|^strcmp$", d):
            h = s.p.facts.holds("eq", e.res, const(0, e.res.w)); s.tests.append(("eq", s.content(e.args[0]), s.content(e.args[1]), h)); return
        m = re.match(r"(?:\S+ )?taintdag::PolyTracker::(~?\w+)\(", d) or re.search(r"taintdag::PolyTracker::(~?\w+)\(", d)
        if m:
            if m.group(1) == "PolyTracker": s.ctor = (e, s.content(e.args[1]))
            elif m.group(1) == "open_file": s.opens.append((e, s.content(e.args[2])))
            elif m.group(1) == "create_taint_source": s.sources.append(e)
    def truth(s, t):
        if not isinstance(t, Lin): return None
        if t.const: return bool(t.c & 1)
        a = t.single()
        for c in s.p.facts.conds:
            if c[0] == "bool" and c[1] == a: return c[2]
        h = s.p.facts.holds("eq", t, const(0, t.w))
        return None if h is None else not h
    def facts(s):
        """known (kind, content, other) -> bool, and whether the path contradicts itself"""
        s.known = {}
        def put(k, v):
            if v is None: return
            if s.known.setdefault(k, v) != v: s.impossible = True
        for kind, x, y, v in s.tests:
            if kind == "empty":
                if x == ("empty",): s.impossible |= v is False
                elif x[0] == "lit": s.impossible |= v is not None and v != (x[1] == "")
                elif x[0] == "env": put(("empty", x[1]), v)
            else:
                if x[0] == "lit": x, y = y, x
                if x[0] == "empty" and y[0] == "lit": s.impossible |= v is not None and v != (y[1] == "")
                elif x[0] == "lit" and y[0] == "lit": s.impossible |= v is not None and v != (x[1] == y[1])
                elif x[0] == "env" and y[0] == "lit":
                    put(("eq", x[1], y[1]), v)
                    if v and y[1]: put(("empty", x[1]), False)
                    if y[1] == "": put(("empty", x[1]), v)
        # first character of a variable's value
        for a, v in s.env.items():
            first = atom(("ld", atom(a, 64), 1, 0), 8); h = None
            for c in s.p.facts.conds:
                for x in c[1:3]:
                    if isinstance(x, Lin):
                        for q in atoms_of(x):
                            if q[0] == "ld" and q[1] == atom(a, 64) and q[2] == 1: first = atom(q, 8)
            put(("empty", v), s.p.facts.holds("eq", first, const(0, 8)))
            put(("first1", v), s.p.facts.holds("eq", first, const(49, 8)))
        for v in s.env.values():
            if s.null.get(v) is True and any(k[1] == v for k in s.known): s.impossible = True
            if s.known.get(("first1", v)) is True: put(("empty", v), False)
def skip_for(argvflag):
    def f(I):
        if I.op in ("call", "invoke"):
            n = life.callee(I)
            return n is not None and bool(NO.search(llvmc.demangle(n)))
        if I.op == "store" and isinstance(I.ops[1], llvmc.Glob): return I.ops[1].name not in argvflag
        return I.op not in ("atomicrmw", "cmpxchg", "fence", "ret", "store")
    return f
def check(rep):
    M = life.module()
    rep.assumptions += ["std::string, std::filesystem::path, std::to_string, getenv and fileno behave as documented", "the environment does not change during start-up"]
    rep.rule("path", "the trace is created at the value of POLYDB, or at polytracker.tdag if it is unset or empty")
    rep.rule("streams", "a standard stream is registered, under its device name and descriptor, exactly if its variable is \"1\" (and the stream has a descriptor)")
    rep.rule("argv-flag", "argument tracking is on exactly if POLYTRACKER_TAINT_ARGV starts with 1")
    rep.rule("argv", "when on, every argument becomes a source named argv[i] holding its own bytes, all of them up to the terminator; when off, none")
    V = analyze(M, "__polytracker_taint_argv"); rep.count("functions"); rep.count("paths", len(V.paths))
    flags = set()
    for p in V.paths:
        for c in p.facts.conds:
            for x in c[1:]:
                if isinstance(x, Lin):
                    for a in atoms_of(x):
                        if a[0] == "ld" and isinstance(a[1], Lin) and life.glob(a[1]): flags.add(life.glob(a[1]))
    if not rep.ob("argv-flag", "__polytracker_taint_argv", len(flags) == 1, f"switches consulted: {sorted(flags)}"): return
    G = next(iter(flags))
    raw = M.global_bytes(G, mutable=True)
    rep.ob("argv-flag", G, raw is not None and not any(raw), "argument tracking is on before start-up")
    A = analyze(M, "__taint_start", skip=skip_for(flags), max_paths=20000); rep.count("functions"); rep.count("paths", len(A.paths))
    done = {k: set() for k in ("path", "argv") + tuple(STREAMS)}
    for p in A.paths:
        if p.end != "ret": continue
        W = World(M, A, p)
        if W.impossible: rep.count("contradictory paths"); continue
        rep.count("configurations"); w = where(p)
        # ---- the trace path
        if rep.ob("path", "__taint_start", W.ctor is not None and DB in W.null, "the tracing object is not constructed, or POLYDB is not consulted", w):
            c = W.ctor[1]; unset = W.null[DB]; empty = W.known.get(("empty", DB))
            done["path"].add(c)
            if c == ("env", DB): rep.ob("path", "__taint_start", unset is False and empty is False, f"the path is the value of POLYDB although it may be unset or empty (path: {conds(p)[:200]})", w)
            elif c == ("lit", DBDEF): rep.ob("path", "__taint_start", unset is True or empty is True, f"the path is the default although POLYDB may be set (path: {conds(p)[:200]})", w)
            else: rep.ob("path", "__taint_start", False, f"the trace path is {c}", w)
        # ---- streams
        rest = list(W.opens)
        for st, (var, dev, fd) in STREAMS.items():
            mine = [(e, c) for e, c in W.opens if W.filenos.get(e.args[1]) == st or (e.args[1].const and e.args[1].c == fd)]
            rest = [x for x in rest if x not in mine]
            if not rep.ob("streams", st, var in W.null, f"{var} is not consulted", w): continue
            on = W.null[var] is False and W.known.get(("eq", var, "1")) is True
            off = W.null[var] is True or W.known.get(("eq", var, "1")) is False
            neg = any(g == st and p.facts.holds("slt", r, const(0, 32)) is True for r, g in W.filenos.items())
            done[st].add(bool(mine))
            if mine:
                rep.ob("streams", st, on, f"registered although {var} need not be 1 (path: {conds(p)[:300]})", w)
                rep.ob("streams", st, len(mine) == 1 and mine[0][1] == ("lit", dev), f"registered as {[c for _, c in mine]}", w)
                rep.ob("streams", st, p.events.index(mine[0][0]) > p.events.index(W.ctor[0]) if W.ctor else False, "registered before the tracing object exists", w)
            else: rep.ob("streams", st, off or neg, f"not registered although {var} may be 1 (path: {conds(p)[:300]})", w)
        rep.ob("streams", "__taint_start", not rest, f"registers {[(str(e.args[1]), c) for e, c in rest]}", w)
        # ---- the argument switch
        v = [e.val for e in p.events if e.kind == "store" and isinstance(e.addr, Lin) and life.glob(e.addr) == G]
        if not rep.ob("argv-flag", "__taint_start", ARGV in W.null, f"{ARGV} is not consulted", w): continue
        one = W.known.get(("first1", ARGV))
        if not v: done["argv"].add("kept"); rep.ob("argv-flag", "__taint_start", W.null[ARGV] is True or one is False, f"{ARGV} has no effect (path: {conds(p)[:200]})", w); continue
        x = v[-1]
        if x.const: done["argv"].add(x.c & 1); rep.ob("argv-flag", "__taint_start", (x.c & 1) == 1 and one is True or x.c == 0 and (one is False or W.null[ARGV] is True), f"argument tracking is switched {'on' if x.c else 'off'} (path: {conds(p)[:200]})", w)
        else:
            a = x.single()
            while a and a[0] == "zext": a = a[2].single()
            ok = bool(a and a[0] == "cmp" and a[1] == "eq" and any(isinstance(q, Lin) and q.const and q.c == 49 for q in a[2:4]) and any(isinstance(q, Lin) and q.single() and q.single()[0] == "ld" and W.env.get(q.single()[1].single()) == ARGV for q in a[2:4]))
            done["argv"] |= {0, 1} if ok else set()
            rep.ob("argv-flag", "__taint_start", ok and W.null[ARGV] is False, f"argument tracking becomes {x}", w)
    rep.ob("path", "__taint_start", {("env", DB), ("lit", DBDEF)} <= done["path"], f"trace paths: {done['path']}")
    for st in STREAMS: rep.ob("streams", st, done[st] == {True, False}, "not both registered and unregistered in some configuration")
    rep.ob("argv-flag", "__taint_start", 1 in done["argv"], "argument tracking is never switched on")
    # ---- the arguments
    loops = set()
    for p in V.paths:
        w = where(p); W = World(M, V, p); on = None
        for c in p.facts.conds:
            for x, y in ((c[1], c[2]), (c[2], c[1])) if len(c) > 2 else ():
                if isinstance(x, Lin) and isinstance(y, Lin) and y.const and any(a[0] == "ld" and isinstance(a[1], Lin) and life.glob(a[1]) == G for a in atoms_of(x)) and c[0] in ("eq", "ne"): on = (c[0] == "ne") == (y.c == 0)
            if c[0] == "bool" and isinstance(c[1], tuple) and any(a[0] == "ld" and isinstance(a[1], Lin) and life.glob(a[1]) == G for a in atoms_of(atom(c[1], 1))): on = c[2]
        if p.end == "noreturn": rep.ob("argv", "taint_argv", False, f"stops (path: {conds(p)})", w); continue
        if on is not True: rep.ob("argv", "taint_argv", not W.sources and (on is False or p.facts.holds("sle", at(V, 0), const(0, 32)) is True), f"labels arguments although tracking is not on, or without asking (path: {conds(p)})", w); continue
        if isinstance(p.end, tuple) and p.end[0] == "back":
            u = p.end[1]; k = atom(("K", u), 32)
            if not W.sources: continue
            loops.add(u)
            if not rep.ob("argv", "taint_argv", len(W.sources) == 1, f"{len(W.sources)} sources per argument", w): continue
            e = W.sources[0]; buf, ln = e.args[-2], e.args[-1]
            i = element(buf, at(V, 1))
            if not rep.ob("argv", "taint_argv", i is not None and index32(i, u), f"iteration K registers {buf}", w): continue
            sl = [x for x in p.calls("strlen") if x.res == ln]
            rep.ob("argv", "taint_argv", len(sl) == 1 and sl[0].args[0] == buf, f"{ln} bytes of the argument are registered", w)
            nm = [x for x in p.calls() if x.res is not None and any(refers(a, x.res) for a in e.args[1:3])]
            c = W.content(nm[0].args[0]) if nm else (W.content(e.args[1]) if W.content(e.args[1]) != ("?",) else W.content(e.args[2]))
            ok = c[0] == "cat" and len(c[1]) == 3 and c[1][0] == ("lit", "argv[") and c[1][2] == ("lit", "]") and c[1][1][0] == "int" and index32(c[1][1][1], u)
            rep.ob("argv", "taint_argv", ok, f"the name is {c}", w)
        elif p.end == "ret":
            n = at(V, 0)
            none = p.facts.holds("sle", n, const(0, 32)) is True or p.facts.holds("slt", n, const(1, 32)) is True
            fin = any(c[0] in ("sge", "sle", "uge", "ule", "eq") and any(isinstance(x, Lin) and any(a[0] == "K" for a, _ in x.t) and sub(x, y) == sub(atom([a for a, _ in x.t if a[0] == "K"][0], x.w), n) or isinstance(y, Lin) and sub(sub(x, y), sub(n, kof(y) or n)) == const(0, x.w) and kof(y) is not None for x, y in ((c[1], c[2]),) if isinstance(x, Lin) and isinstance(y, Lin) and x.w == 32 and y.w == 32) for c in p.facts.conds)
            rep.ob("argv", "taint_argv", none or fin or lastone(p, W, n), f"returns although not every argument need have been registered (path: {conds(p)})", w)
    rep.ob("argv", "taint_argv", len(loops) == 1, f"{len(loops)} loops register arguments")
def kof(t):
    k = [a for a, _ in t.t if a[0] == "K"] if isinstance(t, Lin) else []
    return atom(k[0], t.w) if len(k) == 1 else None
def lastone(p, W, n):
    """the loop left after its last iteration: K + 1 == argc"""
    for c in p.facts.conds:
        if c[0] in ("eq", "sge", "sle", "uge", "ule") and isinstance(c[1], Lin) and isinstance(c[2], Lin):
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if y.w == n.w and y == n and kof(x) is not None and sub(x, kof(x)) == const(1, x.w): return True
                if x.w == 64 and kof(x) is not None and sub(x, kof(x)) in (const(1, 64), const(0, 64)) and y.single() and y.single()[0] in ("zext", "sext") and y.single()[2] == n: return True
    return False
def element(t, arr):
    """index of the array element a pointer was loaded from"""
    a = t.single() if isinstance(t, Lin) else None
    if not a or a[0] != "ld": return None
    d = sub(a[1], arr)
    if d.c == 0 and len(d.t) == 1 and d.t[0][1] == 8: return atom(d.t[0][0], 64)
def index32(t, u):
    a = t.single() if isinstance(t, Lin) else None
    while a and a[0] in ("zext", "sext", "trunc"): a = a[2].single()
    return a == ("K", u)
def refers(t, r):
    a = t.single() if isinstance(t, Lin) else None
    if a is None: return False
    if isinstance(r, Lin): return t == r or a[0] == "ext" and (a[1] == r or a[1] == r.single())
    return False
