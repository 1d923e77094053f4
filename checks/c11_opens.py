"""Path-sensitive value-flow analysis of the IR of every open/accept/connect wrapper: on each returning path the
tracing API is told about the descriptor exactly when the path's branch conditions entail that the library call
succeeded, with the descriptor and the path/address of that very call; all other wrappers never register one."""
from .rt import *
from . import libc
from .iocommon import ASSUME
MIN_OBLIGATIONS = 60
# success: (predicate, constant) on the result; fd: which value is the descriptor; name: parameter naming the file
OPENS = {"open": dict(ok=("sge", 0), fd="ret", name=0), "open64": dict(ok=("sge", 0), fd="ret", name=0), "openat": dict(ok=("sge", 0), fd="ret", name=1),
         "fopen": dict(ok=("ne", 0), fd="stream", name=0), "fopen64": dict(ok=("ne", 0), fd="stream", name=0),
         "accept": dict(ok=("sge", 0), fd="ret", name="socket"), "accept4": dict(ok=("sge", 0), fd="ret", name="socket"),
         "connect": dict(ok=("eq", 0), fd=0, name="socket")}
def flows_into(p, before, obj):
    """everything that reaches a std object through the calls and stores that build it: (terms, objects)"""
    objs = {base_of(obj)}; terms = []
    evs = p.events[:before]
    changed = True
    def key(t):
        if not isinstance(t, Lin): return None
        b = base_of(t)
        return b if b and b[0] in ("alloca", "call") else None
    while changed:
        changed = False
        for e in evs:
            if e.kind == "call" and e.dname and e.dname.split("(")[0].find("taintdag::") < 0 and e.callee not in libc.LIBQUERY:
                ks = [key(a) for a in e.args if isinstance(a, Lin)] + ([key(e.res)] if e.res is not None else [])
                if any(k in objs for k in ks if k):
                    for k in ks:
                        if k and k not in objs: objs.add(k); changed = True
            elif e.kind == "store" and key(e.addr) in objs:
                k = key(e.val) if isinstance(e.val, Lin) else None
                if k and k not in objs: objs.add(k); changed = True
    for e in evs:
        if e.kind == "call" and any(key(a) in objs for a in e.args if isinstance(a, Lin)): terms += [a for a in e.args if isinstance(a, Lin)]
        elif e.kind == "store" and key(e.addr) in objs and isinstance(e.val, Lin): terms.append(e.val)
    return terms, objs
def socket_name(A, p, before, obj, sock):
    """the address of this very socket: both ends, each from the matching query"""
    terms, objs = flows_into(p, before, obj)
    ends = {}
    for e in p.events[:before]:
        if e.kind == "call" and e.callee in ("getsockname", "getpeername"):
            if e.args[0] != sock: return f"{e.callee} asks about {e.args[0]}"
            ends[e.callee] = e.args[1]
    if set(ends) != {"getsockname", "getpeername"}: return "the name does not use both ends of the connection"
    text = {}
    for e in p.events[:before]:
        if e.kind == "call" and e.callee == "inet_ntop":
            for k, b in ends.items():
                if e.args[1] == Lin(64, b.c + 4, b.t): text[k] = e.args[2]
    for k in ends:
        if k not in text or base_of(text[k]) not in objs: return f"the address reported by {k} is not part of the name"
        port = Lin(64, ends[k].c + 2, ends[k].t)
        if not any(mentions(t, lambda a: a[0] == "ld" and a[1] == port) for t in terms): return f"the port reported by {k} is not part of the name"
    order = [k for e in p.events[:before] if e.kind == "call" and e.callee != "inet_ntop" for k in ends for a in e.args[1:2] if isinstance(a, Lin) and a == text[k]]
    if len(order) == 2 and order != ["getsockname", "getpeername"]: return "local and remote address are exchanged"
    return ""
def check(rep):
    rep.assumptions += ASSUME
    M = wrappers()
    rep.rule("registered-iff-opened", "a path registers a descriptor exactly when the library call's result says it succeeded (connections: IPv4 only)")
    rep.rule("once", "one library call and at most one registration per path")
    rep.rule("descriptor", "the registered descriptor is the one the program receives")
    rep.rule("name", "the registered name is the path argument, or the two addresses of that socket")
    rep.rule("no-other", "no other wrapper registers a descriptor")
    rep.rule("stops", "a path that does not return reports an error")
    rep.count("translation units", len(M.sources))
    for sym in sorted(M.rootset):
        name = sym[len("__dfsw_"):]
        if name in OPENS: continue
        A = wrapper(name, M); rep.count("other wrappers")
        rep.ob("no-other", sym, not any(api(p, "open_file") for p in A.paths), "registers a descriptor")
    for name, spec in OPENS.items():
        A = wrapper(name, M)
        if A is None: raise AnalysisBroken(f"no wrapper __dfsw_{name}")
        rep.count("wrappers"); rep.count("paths", len(A.paths))
        for p in A.paths:
            site = "__dfsw_" + name; w = where(p)
            if p.end == "noreturn":
                rep.ob("stops", site, errexit(p), "ends without returning and without an error: " + conds(p), w); continue
            if p.end != "ret": continue
            U = [e for e in p.calls() if e.callee in libc.same(name)]
            if not rep.ob("once", site, len(U) == 1, f"{len(U)} calls of {name}", w): continue
            U = U[0]; res = U.res
            opened = p.facts.holds(spec["ok"][0], res, const(spec["ok"][1], res.w))
            reg = api(p, "open_file")
            rep.ob("once", site, len(reg) <= 1, f"{len(reg)} registrations for one call", w)
            if not reg:
                ok = opened is False or (spec["name"] == "socket" and opened is True and not_inet(p, name))
                rep.ob("registered-iff-opened", site, ok, f"not registered although {name} may have succeeded (path: {conds(p)})", w)
                continue
            e = reg[0]; i = seq_index(p, e)
            rep.ob("registered-iff-opened", site, opened is True, f"registered although {name} may have failed (path: {conds(p)})", e.loc)
            fd = e.args[1]
            if spec["fd"] == "ret": ok = same_value(p, fd, res); sock = res
            elif spec["fd"] == "stream":
                ok = any(x.callee in ("fileno", "fileno_unlocked") and x.res == fd and x.args[0] == res for x in p.calls())
            else: sock = at(A, spec["fd"]); ok = fd == sock
            rep.ob("descriptor", site, ok, f"registered descriptor is {fd}", e.loc)
            if spec["name"] == "socket":
                why = socket_name(A, p, i, e.args[2], sock)
                rep.ob("name", site, not why, why, e.loc)
            else:
                terms, _ = flows_into(p, i, e.args[2])
                params = {t.single() for t in terms if isinstance(t, Lin) and t.single() and t.single()[0] == "arg"}
                want = at(A, spec["name"]).single()
                rep.ob("name", site, params == {want}, f"the registered name is built from {[str(t) for t in terms]}", e.loc)
                ch = changes(p, i, e.args[2])
                rep.ob("name", site, not ch, f"the registered name is not the path itself but goes through {ch}", e.loc)
    entry(rep)
def entry(rep):
    """what the tracing object stores for an opened file"""
    from . import core
    M = core.module("api"); L = core.layout(M)
    rep.rule("entry", "one source entry is added: the name's string, the descriptor passed, and the file's size or 'unknown'")
    for d, A in core.method(M, r"open_file\("):
        rep.count("methods"); rep.count("paths", len(A.paths))
        for p in A.paths:
            w = where(p)
            if p.end == "noreturn": rep.ob("stops", "open_file", core.stopped(p), conds(p), w); continue
            if p.end != "ret": continue
            src = [r for r in core.reservations(A, p, L) if r.sec.name == "Sources"]
            if not rep.ob("entry", "open_file", len(src) == 1, f"{len(src)} entries added", w): continue
            r = src[0]; name, fd, size = r.field(0, 4), r.field(4, 4), r.field(8, 8)
            st = [e for e in core.calls(p, core.STRINGS)]
            rep.ob("entry", "open_file", len(st) == 1 and core.is_field(name, st[0].res.single(), 0, 32) if name is not None and st and st[0].res.single() else False, f"the name stored is {name}", w)
            if st:
                why = same_text(p, seq_index(p, st[0]), st[0].args[2], at(A, 2))
                rep.ob("entry", "open_file", not why, f"the name stored is not the path that was opened: {why}", w)
            rep.ob("entry", "open_file", fd == at(A, 1), f"the descriptor stored is {fd}", w)
            q = [e for e in p.calls() if "filesystem::file_size(" in (e.dname or "")]
            ok = any(size == e.res and e.args[0] == at(A, 2) for e in q)
            if not ok and isinstance(size, Lin) and size.const and size.c in (-1, (1 << 64) - 1):
                failed = [c for c in p.facts.conds if c[0] == "bool" and c[2] and isinstance(c[1], tuple) and "error_code::operator bool" in str(c[1])]
                ok = bool(failed) or any(p.facts.holds("eq", e.res, const(-1, 64)) for e in q)
            rep.ob("entry", "open_file", ok, f"the size stored is {size} (path: {conds(p)})", w)
KEEPS = re.compile(r"::(~?path|~?basic_string|~?basic_string_view|string|native|c_str|data|size|length|begin|end|empty|swap|assign|operator=|operator std::.*|operator\\[\\])$|^std::(move|forward|addressof)|allocator|char_traits")
def changes(p, before, obj):
    """calls on the way to the registered name that do more than copy it"""
    _, objs = flows_into(p, before, obj)
    out = []
    for e in p.events[:before]:
        if e.kind != "call" or not e.dname or not re.search(r"filesystem|basic_string|std::", e.dname.split("(")[0]): continue
        if not any(isinstance(a, Lin) and base_of(a) in objs for a in e.args): continue
        n = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", e.dname.split("(")[0])))
        if "operator" not in e.dname and not KEEPS.search(n): out.append(n[-60:])
        elif "operator" in e.dname and not re.search(r"operator (std::|=|\[\])|operator=|operator\[\]", e.dname): out.append(n[-60:])
    return out
COPIES = re.compile(r"path::(string|u8string|native|c_str|generic_string|operator std::__cxx11::basic_string<[^(]*)\(|path::path\(std::filesystem::__cxx11::path const|basic_string<[^(]*>::(operator std::basic_string_view<[^(]*|data|c_str|basic_string)\(|basic_string_view<[^(]*>::basic_string_view\(")
def same_text(p, before, t, want):
    """'' when the text behind t is the text of object `want`, through conversions that keep it"""
    for _ in range(12):
        if t == want: return ""
        b = base_of(t)
        if b == base_of(want): return ""
        if b is None: return str(t)
        if b[0] == "alloca": made = [e for e in p.events[:before] if e.kind == "call" and e.args and e.args[0] == t and e.dname and len(e.args) > 1 and "::~" not in e.dname]
        elif b[0] in ("call", "ext"):
            v = b if b[0] == "call" else b[1].single() if isinstance(b[1], Lin) else b[1]
            made = [e for e in p.events[:before] if e.kind == "call" and isinstance(e.res, Lin) and e.res.single() == v]
        else: return str(t)
        if len(made) != 1: return f"{t} is made by {len(made)} calls"
        if not COPIES.search(made[0].dname or ""): return f"made by {(made[0].dname or made[0].callee)[:80]}"
        t = made[0].args[1] if b[0] == "alloca" or len(made[0].args) > 1 and "basic_string_view" in made[0].dname.split("(")[0] and made[0].args[0] == t else made[0].args[0]
    return str(t)
def not_inet(p, name):
    """the path's conditions say the socket's address family is not AF_INET"""
    q = [e for e in p.calls() if e.callee == "getsockname"]
    for e in q:
        for c in p.facts.conds:
            if c[0] == "ne" and isinstance(c[1], Lin) and isinstance(c[2], Lin):
                for x, y in ((c[1], c[2]), (c[2], c[1])):
                    a = x.single() if not x.const else None
                    if a and a[0] == "zext": a = a[2].single()
                    if a and a[0] == "ld" and a[1] == e.args[1] and y.const and y.c == 2: return True
    return False
