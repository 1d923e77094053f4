"""Value-flow analysis of the sanitizer's wrappers of functions that fill the caller's memory (LLVM IR, helpers inlined, loops as
generic iterations): on every path the library call, its arguments and result and every label assignment (address, length, label)
are compared with what the library function filled on that path, null outputs included."""
import os, subprocess
from .shadow import *
MIN_OBLIGATIONS = 120
HEAD = "signal sys/stat sys/time sys/resource sys/socket sys/select sys/epoll time pwd netinet/in poll".split()
SIZES = {"stat": "struct stat", "timespec": "struct timespec", "timeval": "struct timeval", "timezone": "struct timezone", "rlimit": "struct rlimit", "rusage": "struct rusage", "tm": "struct tm",
         "passwd": "struct passwd", "fd_set": "fd_set", "sigset": "sigset_t", "sigaction": "struct sigaction", "stack": "stack_t", "epoll_event": "struct epoll_event", "in": "struct in_addr", "in6": "struct in6_addr",
         "ptr": "void *", "size_t": "size_t", "time_t": "time_t", "int": "int", "socklen": "socklen_t", "msghdr": "struct msghdr", "mmsghdr": "struct mmsghdr", "pollfd": "struct pollfd"}
def sizes():
    d = cxx.scratch() + "/sizes.c"
    open(d, "w").write("#define _GNU_SOURCE 1\n" + "".join(f"#include <{h}.h>\n" for h in HEAD) + "".join(f"const unsigned long S_{k} = sizeof({t});\n" for k, t in SIZES.items()))
    cxx.run(["clang-18", "-w", "-c", "-emit-llvm", d, "-o", d[:-2] + ".bc"]); M = prep.Module([d[:-2] + ".bc"])
    return {k: M.global_init("S_" + k).v for k in SIZES}
# output: (parameter | "ret", length, when, nullable, label);  when: condition on the result; "any": the content is undefined otherwise
#   length: size name | ("str",) string length + 1 | ("arg", i) | ("ret", size) | ("at", i) value stored at parameter i | ("min", i) the smaller of that before and after | ("inet",)
#   label:  0 | ("of", parameter, length): the label of what the output was computed from
Z, NM1, POS, NN, ANY, NNEG = ("eq", 0), ("ne", -1), ("sgt", 0), ("ne", 0), None, ("sge", 0)
T = {
 "stat": [(1, "stat", Z, False, 0)], "fstat": [(1, "stat", Z, False, 0)], "clock_gettime": [(1, "timespec", Z, False, 0)], "pthread_join": [(1, "ptr", Z, True, 0)],
 "ctime_r": [(1, ("str",), NN, False, ("of", 0, "time_t"))], "localtime_r": [(1, "tm", NN, False, ("of", 0, "time_t"))],
 "getcwd": [("ret", ("str",), NN, False, 0)], "get_current_dir_name": [("ret", ("str",), NN, False, 0)], "gethostname": [(0, ("str",), Z, False, 0)],
 "getrlimit": [(1, "rlimit", Z, False, 0)], "getrusage": [(1, "rusage", Z, False, 0)], "time": [(0, "time_t", NM1, True, 0)],
 "inet_pton": [(2, ("inet",), ("eq", 1), False, ("of", 1, ("str",)))], "getpwuid_r": [(1, "passwd", "found", False, 0), (2, ("arg", 3), "found", False, 0), (4, "ptr", ANY, False, 0)],
 "epoll_wait": [(1, ("ret", "epoll_event"), POS, False, 0)], "sched_getaffinity": [(2, ("arg", 1), Z, False, 0)], "sigemptyset": [(0, "sigset", ANY, False, 0)],
 "select": [(1, "fd_set", ANY, True, 0), (2, "fd_set", ANY, True, 0), (3, "fd_set", ANY, True, 0), (4, "timeval", ANY, True, 0)],
 "sigaction": [(2, "sigaction", ANY, True, 0)], "sigaltstack": [(1, "stack", NM1, True, 0)], "gettimeofday": [(0, "timeval", ANY, True, 0), (1, "timezone", ANY, True, 0)],
 "nanosleep": [(1, "timespec", ("eq", -1), True, 0)], "socketpair": [(3, ("times", "int", 2), Z, False, 0)],
 "getsockopt": [(4, "socklen", NM1, True, 0), (3, ("at", 4), NM1, True, 0)], "getsockname": [(2, "socklen", NM1, True, 0), (1, ("min", 2), NM1, True, 0)], "getpeername": [(2, "socklen", NM1, True, 0), (1, ("min", 2), NM1, True, 0)],
 "_dl_get_tls_static_info": [(0, "size_t", ANY, False, 0), (1, "size_t", ANY, False, 0)],
}
PAIRED = {"getsockopt": (3, 4), "getsockname": (1, 2), "getpeername": (1, 2)}      # one null output: nothing is filled in
FREEARG = {"sigaction": {1}}                                                          # the action is replaced by the sanitizer's own handler
RESULT = {"ctime_r": 1, "localtime_r": 1, "getcwd": 0}                                # the result is that pointer: same label
def num(k, w=64): return const(k & ((1 << w) - 1), w)
def z64(t): return t if t.w == 64 else (const(t.c, 64) if t.const else None)
class C:
    def __init__(s, A, p, call, S): s.A, s.p, s.F, s.call, s.S = A, p, p.facts, call, S
    def eq(s, a, b): return isinstance(a, Lin) and isinstance(b, Lin) and a.w == b.w and (a == b or s.F.holds("eq", a, b) is True)
    def arg(s, i): return at(s.A, i)
    def ext(s, t): return t if t.w == 64 else s.A._ext("zext", 64, t)
    def sext(s, t): return t if t.w == 64 else s.A._ext("sext", 64, t)
    def strings(s, n, x): return any((e.callee or "") == "strlen" and s.eq(e.args[0], x) and s.eq(n, add(e.res, const(1, 64))) for e in s.p.calls())
    def long(s, n, spec, x, ev):
        """is n the length `spec` of the output at x"""
        if isinstance(spec, str): return s.eq(n, const(s.S[spec], 64))
        k = spec[0]
        if k == "str": return s.strings(n, x)
        if k == "arg": return s.eq(n, s.ext(s.arg(spec[1])))
        if k == "times": return s.eq(n, const(s.S[spec[1]] * spec[2], 64))
        if k == "ret": return any(s.eq(n, scale(f(s.call.res), s.S[spec[1]])) for f in (s.sext, s.ext))
        if k == "inet":
            v4 = s.F.holds("eq", s.arg(0), const(2, 32))
            return v4 is not None and s.eq(n, const(s.S["in" if v4 else "in6"], 64))
        new = s.now(spec[1], ev)
        if k == "at": return s.eq(n, s.ext(new))
        old = s.A._load(_st(s, s.call.mem), s.arg(spec[1]), 4, None)
        if s.eq(n, s.ext(new)): return s.F.holds("ule", new, old) is True
        return s.eq(n, s.ext(old)) and s.F.holds("ule", old, new) is True
    def now(s, i, ev): return mem_at(s.A, s.p, ev, s.arg(i), 4)
def _st(c, mem):
    st = State(); st.mem = mem; st.escaped = set(); st.facts = c.F; st.env = c.p.env; return st
def holds(c, when):
    """True / False / None: the output was filled on this path"""
    if when is None: return True
    if when == "found":
        r = holds(c, Z)
        if r is not True: return r
        v = c.A.load(c.p, c.arg(4), 8); h = c.F.holds("ne", v, const(0, 64))
        return h
    r = c.call.res; return c.F.holds(when[0], r, num(when[1], r.w))
def check(rep):
    rep.rule("call", "the library function is called exactly once with the program's arguments")
    rep.rule("result", "its result is returned unchanged, untainted or with the label of the pointer it is")
    rep.rule("filled", "every output the function filled has the label of what it was computed from (none for what comes from the system), over exactly the bytes filled")
    rep.rule("only", "no label is written except those of a filled output")
    rep.rule("null", "a null output is left alone")
    rep.assumptions += ["the functions fill what the C library documents; where content is undefined after a failure, clearing its labels is accepted", "origin tracking is off", "addresses other than documented optional outputs are not null"]
    S = sizes()
    for name, outs in T.items():
        A = custom_wrapper(name)
        if A is None: raise AnalysisBroken(f"no wrapper __dfsw_{name}")
        rep.count("wrappers"); rep.count("paths", len(A.paths))
        for p in A.paths:
            if p.end == "ret": one(rep, A, p, name, outs, S)
    messages(rep, S); polling(rep, S)
def thecall(rep, A, p, name, site):
    cs = [e for e in p.calls() if (e.callee or "") == name]
    if not rep.ob("call", site, len(cs) == 1, f"{name} is called {len(cs)} times ({conds(p)[:200]})", where(p)): return None
    c = cs[0]
    for i, a in enumerate(c.args):
        if i in FREEARG.get(name, ()): continue
        rep.ob("call", f"{site} parameter {i}", a == at(A, i) or (isinstance(a, Lin) and p.facts.holds("eq", a, at(A, i)) is True), f"{name} gets {a}", where(p))
    return c
def result(rep, A, p, name, site, c, void=False):
    if void: return
    rep.ob("result", site, p.ret == c.res or (isinstance(p.ret, Lin) and p.facts.holds("eq", p.ret, c.res) is True), f"returns {p.ret} instead of what {name} returned ({conds(p)[:200]})", where(p))
    l = A.load(p, at(A, len(A.F.args) - 1), 4); n = (len(A.F.args) - 1) // 2
    ok = l == const(0, 32)
    if name in RESULT: ok = l == at(A, n + RESULT[name]) or (ok and p.facts.holds("eq", c.res, const(0, 64)) is True)
    rep.ob("result", f"{site} label", ok, f"the label of the result is {l} ({conds(p)[:200]})", where(p))
def sets(p): return [e for e in p.calls() if (e.callee or "") == "dfsan_set_label"]
def one(rep, A, p, name, outs, S):
    site = "__dfsw_" + name; c = thecall(rep, A, p, name, site)
    if c is None: return
    result(rep, A, p, name, site, c, void=A.F.ret == "void")
    X = C(A, p, c, S); todo = sets(p); w = where(p)
    for o in outs:
        par, length, when, nullable, label = o
        x = c.res if par == "ret" else at(A, par); fill = holds(X, when)
        mine = [e for e in todo if X.eq(e.args[1], x)]
        for e in mine: todo.remove(e)
        null = p.facts.holds("eq", x, const(0, 64))
        if name in PAIRED and any(p.facts.holds("eq", at(A, i), const(0, 64)) is True for i in PAIRED[name]): null, fill = True, False
        s2 = f"{site} output {par}"
        if mine and nullable: rep.ob("null", s2, p.facts.holds("ne", x, const(0, 64)) is True, f"labels are written although the output may be null ({conds(p)[:200]})", w)
        if mine: rep.ob("only", s2, fill is True or when is None, f"labels are written although {name} may not have filled it ({conds(p)[:200]})", w)
        if fill is False or null is True: continue
        if not rep.ob("filled", s2, len(mine) == 1, f"{'no label is' if not mine else 'several labels are'} written for what {name} filled in ({conds(p)[:200]})", w): continue
        e = mine[0]
        rep.ob("filled", s2 + " order", p.events.index(e) > p.events.index(c), "the label is written before the call", w)
        rep.ob("filled", s2 + " length", X.long(e.args[2], length, x, e), f"{e.args[2]} bytes are labelled ({conds(p)[:200]})", w)
        if label == 0: rep.ob("filled", s2 + " label", e.args[0] == const(0, 32), f"the label written is {e.args[0]}", w)
        else:
            r = [q for q in p.calls() if (q.callee or "") == "dfsan_read_label" and q.res == e.args[0]]
            rep.ob("filled", s2 + " label", bool(r) and X.eq(r[0].args[0], at(A, label[1])) and X.long(r[0].args[1], label[2], at(A, label[1]), r[0]), f"the label written is {e.args[0]}", w)
    for e in todo: rep.ob("only", site, False, f"labels of {e.args[2]} bytes at {e.args[1]} are written, which {name} does not fill ({conds(p)[:200]})", w)
def strip(p, u): return [e for e in p.events if e.loop == u]
def messages(rep, S):
    """recvmsg, recvmmsg: header, name, control data and the bytes received, buffer by buffer and within the buffers"""
    for name in ("recvmsg", "recvmmsg"):
        A = custom_wrapper(name); site = "__dfsw_" + name; rep.count("wrappers"); rep.count("paths", len(A.paths)); seen = 0
        for p in A.paths:
            if p.end == "ret":
                c = thecall(rep, A, p, name, site)
                if c is not None: result(rep, A, p, name, site, c)
            c = next((e for e in p.calls() if (e.callee or "") == name), None)
            if c is None: continue
            F = p.facts; ss = sets(p); w = where(p); r = c.res
            if F.holds("sle", r, num(-1 if name == "recvmsg" else 0, r.w)) is True or (name == "recvmmsg" and p.end == "ret"):
                rep.ob("only", site, not ss, f"labels are written although nothing was received ({conds(p)[:200]})", w)
                if name == "recvmmsg":
                    k = [a for x in F.conds for t in x[1:] if isinstance(t, Lin) for a in atoms_of(t) if a[0] == "K"]
                    rep.ob("filled", site + " messages", F.holds("sle", r, const(0, r.w)) is True or any(F.holds("sge", atom(a, r.w), r) is True for a in k), f"not every message received is considered ({conds(p)[:200]})", w)
                continue
            if name == "recvmsg": msg = at(A, 1); count = r
            else:
                e = next((e for e in ss if e.args[2] == const(S["msghdr"], 64)), None)
                if not rep.ob("filled", site + " header", e is not None, "no message header is labelled", w): continue
                msg = e.args[1]; d = sub(msg, at(A, 1)); ks = [a for a in atoms_of(d) if a[0] == "K"]
                rep.ob("filled", site + " messages", d.c == 0 and len(d.t) == 1 and d.t[0][1] == S["mmsghdr"] and len(ks) == 1 and F.holds("slt", atom(ks[0], r.w), r) is True, f"the message labelled is at {d} of the vector", w)
                m = add(msg, const(S["msghdr"], 64)); l = [e for e in ss if e.args[1] == m]
                rep.ob("filled", site + " length field", len(l) == 1 and l[0].args[2] == const(4, 64) and l[0].args[0] == const(0, 32), "the length of the message keeps its label", w)
                ss = [e for e in ss if e not in l]; count = None
            ld = lambda e, off, n: mem_at(A, p, e, add(msg, const(off, 64)), n)
            kinds = {"header": lambda e: e.args[1] == msg and e.args[2] == const(S["msghdr"], 64),
                     "name": lambda e: e.args[1] == ld(e, 0, 8) and e.args[2] == A._ext("zext", 64, ld(e, 8, 4)),
                     "control": lambda e: e.args[1] == ld(e, 32, 8) and e.args[2] == ld(e, 40, 8)}
            rest = list(ss)
            for k, f in kinds.items():
                g = [e for e in rest if f(e)]
                if rep.ob("filled", f"{site} {k}", len(g) >= 1 and all(e.args[0] == const(0, 32) for e in g), f"the {k} of the message keeps its labels ({conds(p)[:200]})", w):
                    for e in g: rest.remove(e)
            if p.end[0] == "back" and rest:
                u = p.end[1]; seen += 1; li = A.loopinfo[u]; K = atom(("K", u), 64)
                ok = len(rest) == 1 and rest[0].args[0] == const(0, 32); e = rest[0]
                iov = add(ld(e, 16, 8), scale(K, 16)); n = e.args[2]
                ok = ok and e.args[1] == mem_at(A, p, e, iov, 8); rep.ob("filled", site + " buffers", ok, f"{n} bytes at {e.args[1]} are labelled", w)
                rep.ob("only", site + " buffers", F.holds("ult", K, ld(e, 24, 8)) is True or F.holds("ne", iov, add(ld(e, 16, 8), scale(ld(e, 24, 8), 16))) is True, "buffers beyond those of the message are labelled", w)
                left = [(ph, v) for ph, v in carried_all(p, u).items() if isinstance(v, Lin)]
                cur = [(ph, atom(a, 64)) for ph, v in left for a in [("iv", u, ph)] ]
                cap = mem_at(A, p, e, add(iov, const(8, 64)), 8); good = False
                for ph, v in left:
                    iv = next((atom(a, 64) for x in F.conds for t in x[1:] if isinstance(t, Lin) for a in atoms_of(t) if a[0] == "iv" and a[1] == u and a[2] == ph), None)
                    if iv is None or v != sub(iv, n): continue
                    small = (n == cap and F.holds("ule", cap, iv) is True) or (n == iv and F.holds("ule", iv, cap) is True)
                    i0 = li.init[ph]; start = i0 == count if count is not None else i0 == A._ext("zext", 64, mem_at(A, p, e, add(msg, const(S["msghdr"], 64)), 4))
                    good = good or (small and start)
                rep.ob("filled", site + " bytes", good, f"the bytes labelled per buffer ({n}) do not add up to those received ({conds(p)[:300]})", w)
            elif rest: rep.ob("only", site, False, f"labels of {rest[0].args[2]} bytes at {rest[0].args[1]} are written", w)
            else:
                # the loop over the buffers has ended: nothing left, or no buffer left
                ivs = [a for x in F.conds for t in x[1:] if isinstance(t, Lin) for a in atoms_of(t) if a[0] == "iv"]
                ks = [a for x in F.conds for t in x[1:] if isinstance(t, Lin) for a in atoms_of(t) if a[0] == "K"]
                e = ss[-1] if ss else None
                done = any(F.holds("eq", atom(a, 64), const(0, 64)) is True for a in ivs) or (e is not None and any(F.holds("uge", atom(a, 64), A.load(p, add(msg, const(24, 64)), 8)) is True or F.holds("uge", atom(a, 64), ld(e, 24, 8)) is True or F.holds("eq", scale(atom(a, 64), 16), scale(ld(e, 24, 8), 16)) is True or F.holds("eq", add(ld(e, 16, 8), scale(atom(a, 64), 16)), add(ld(e, 16, 8), scale(ld(e, 24, 8), 16))) is True for a in ks if a[1] != (1, 1) or name == "recvmsg"))
                rep.ob("filled", site + " all bytes", done or (count is not None and F.holds("eq", count, const(0, 64)) is True), f"the buffers are left before every received byte is considered ({conds(p)[:300]})", w)
        rep.ob("filled", site + " buffers", seen > 0, "the received bytes keep their labels", "")
def carried_all(p, u): return p.env[("carried", u)]
def polling(rep, S):
    A = custom_wrapper("poll"); site = "__dfsw_poll"; rep.count("wrappers"); rep.count("paths", len(A.paths)); seen = 0; E = S["pollfd"]
    for p in A.paths:
        F = p.facts; w = where(p); c = next((e for e in p.calls() if (e.callee or "") == "poll"), None); ss = sets(p)
        if p.end == "ret":
            c = thecall(rep, A, p, "poll", site)
            if c is None: continue
            result(rep, A, p, "poll", site, c)
            if not ss and F.holds("slt", c.res, const(0, 32)) is not True:
                ks = [atom(a, 64) for x in F.conds for t in x[1:] if isinstance(t, Lin) for a in atoms_of(t) if a[0] == "K"]
                rep.ob("filled", site, F.holds("eq", at(A, 1), const(0, 64)) is True or any(F.holds("uge", k, at(A, 1)) is True or F.holds("eq", k, at(A, 1)) is True for k in ks), f"not every entry is considered ({conds(p)[:200]})", w)
                continue
        if ss:
            rep.ob("only", site, c is not None and (F.holds("slt", c.res, const(0, 32)) is False), f"labels are written although poll may have failed ({conds(p)[:200]})", w)
            for e in ss:
                seen += 1; u = p.end[1] if p.end[0] == "back" else None; K = atom(("K", u), 64)
                f = add(add(at(A, 0), scale(K, E)), const(6, 64)); b = add(add(at(A, 0), scale(sub(sub(at(A, 1), const(1, 64)), K), E)), const(6, 64))
                rep.ob("filled", site, u is not None and e.args[0] == const(0, 32) and e.args[2] == const(2, 64) and e.args[1] in (f, b), f"{e.args[2]} bytes at {e.args[1]} are labelled {e.args[0]}", w)
    rep.ob("filled", site + " entries", seen > 0, "the returned events keep their labels", "")
