"""The tracing object (taintdag::PolyTracker) with everything below it inlined, and the layout of its sections.

Nothing here names a private field: where a section keeps its start, its write position and its lock is read off the
analysed size(), so the section's representation may change as long as size() still tells what is used."""
import os
from .rt import *
from engine import llvmc
CODEC = re.compile(r"^taintdag::(encode|decode|is_source_taint|check_affects_control_flow|add_affects_control_flow)\(|^taintdag::union_::compute\(")
class _Hash:
    """operations of std::unordered_map, whatever their return type"""
    pattern = "std::unordered_map"
    rx = re.compile(r"^std::(__detail::|)_Hash|^std::__detail::_(Map_base|Insert)|^std::(unordered_map|map)::")
    def search(s, d): return ("unordered_map" in d or "_Hash" in d or "_Map_base" in d) and s.rx.search(prep.bare(d) + "::")
HASH = _Hash()
BITMAP = re.compile(r"^taintdag::BitmapSectionBase<.*>::(set|set_range|is_set)\(")
LOOKUP = re.compile(r"^taintdag::Sources::mapping_idx\(")
STRINGS = re.compile(r"^taintdag::StringTableBase<.*>::add_string\(")
QUEUE = re.compile(r"^taintdag::utils::LabelDeq<.*>::(push_back|pop_front|empty|~?LabelDeq)\(")
SECTIONS = ["Sources", "Labels", "StringTable", "TaintSink", "Functions", "Events", "ControlFlowLog"]
_c = {}
def members():
    """names of the tracing object's private members the entry points need, told by their types"""
    h = open(f"{cxx.PT}/include/taintdag/polytracker.h", errors="replace").read()
    h = re.sub(r"//[^\n]*|/\*.*?\*/", " ", h, flags=re.S)
    al = re.findall(r"using\s+(\w+)\s*=\s*(?:taintdag::)?OutputFile\s*<", h)
    of = [n for a in al for n in re.findall(r"\b" + a + r"\s+(\w+)\s*[;{]", h)] or re.findall(r"\bOutputFile\s*<[^;{}]*>\s*(\w+)\s*[;{]", h)
    sal = re.findall(r"using\s+(\w+)\s*=\s*(?:taintdag::)?StreamOffset\s*<", h)
    so = re.findall(r"\b(?:StreamOffset\s*<[^;]*?>" + "".join("|" + a for a in sal) + r")\s+(\w+(?:\s*,\s*\w+)*)\s*[;{]", h)
    so = [x.strip() for g in so for x in g.split(",")]
    rd = [x for x in so if re.search(r"read|source|in(put)?_|rd", x, re.I)] or so[:1]
    wr = [x for x in so if x not in rd[:1] and re.search(r"writ|sink|out|wr", x, re.I)] or [x for x in so if x not in rd[:1]]
    return [f"-DW_{k}={v[0]}" for k, v in (("OF", of), ("READ", rd), ("WRITE", wr)) if v]
def module(name="api"):
    """'api': recorder methods with codec, bitmap, lookup and string table as calls;  'flat': only the codec stays a call"""
    if name not in _c:
        if "bcs" not in _c:
            srcs = [(s, None) for s in cxx.runtime_sources()] + [(os.path.join(cxx.VERIF, "witness", "core.cpp"), cxx.BASE + ["-fno-access-control"] + members())]
            _c["bcs"] = cxx.compile_many(srcs); _c["srcs"] = [s for s, _ in srcs]
        b = {"api": [CODEC, BITMAP, LOOKUP, STRINGS, QUEUE], "flat": [CODEC, QUEUE]}[name]
        M = prep.prepare(_c["bcs"], [API, re.compile(r"^w_\w+$")], b + [STDHEAVY, HASH])
        M.sources = _c["srcs"]
        for r in (("bitmap", BITMAP), ("lookup", LOOKUP), ("string table", STRINGS)):
            if name == "api" and r[1].pattern in M.missing: raise AnalysisBroken(f"{r[0]} operation not found in the runtime")
        _c[name] = M
    return _c[name]
class Sec:
    """one section inside the tracing object: addresses of its write position, start and lock (terms over arg0)"""
    def __init__(s, name, at, pos, begin, lock): s.name, s.at, s.pos, s.begin, s.lock = name, at, pos, begin, lock
    def __repr__(s): return s.name
def own(M, fn):
    """(write-position cell, start cell, lock) of a section, relative to its address"""
    A = analyze(M, fn)
    for p in A.paths:
        if p.end != "ret" or not isinstance(p.ret, Lin): continue
        pos = [a for a, k in p.ret.t if k == 1 and a[0] == "ld"]; beg = [a for a, k in p.ret.t if k == -1 and a[0] == "ld"]
        lock = [e.args[0] for e in p.calls("pthread_mutex_lock")]
        if len(pos) == 1 and len(beg) == 1 and len(lock) == 1 and p.ret.c == 0: return pos[0][1].c, beg[0][1].c, lock[0].c
    raise AnalysisBroken(f"{fn}: size() is not 'write position minus start' under one lock")
def layout(M):
    if ("layout", id(M)) not in _c:
        L = {}
        for n in SECTIONS:
            p = [p for p in analyze(M, f"w_at_{n}").paths if p.end == "ret"][0].ret
            a, b, c = own(M, f"w_size_{n}")
            L[n] = Sec(n, p, Lin(64, p.c + a, p.t), Lin(64, p.c + b, p.t), Lin(64, p.c + c, p.t))
        for n in ("SourceIndexBits", "read_offsets", "write_offsets"):
            L[n] = [p for p in analyze(M, f"w_at_{n}").paths if p.end == "ret"][0].ret
        _c[("layout", id(M))] = L
    return _c[("layout", id(M))]
def fixed(M):
    """start and extent of every section never change after construction (C06 checks that nothing writes them)"""
    cells = set()
    for x in layout(M).values():
        if isinstance(x, Sec): cells |= {x.begin, Lin(64, x.begin.c + 8, x.begin.t)}
    return lambda a: a in cells
def fixed1(M, fn):
    pos, beg, lock = own(M, fn)
    c = {Lin(64, beg, ((("arg", 0), 1),)), Lin(64, beg + 8, ((("arg", 0), 1),))}
    return lambda a: a in c
def alias_sec(M, t):
    """a lock or cell reached through a reference member (Sources and Functions keep a reference to the string table)"""
    return t
_an = {}
def method(M, pat, **kw):
    """analysed API methods whose demangled signature matches"""
    out = []
    for f in sorted(M.rootset):
        d = llvmc.demangle(f)
        if re.search(r"^taintdag::PolyTracker::" + pat, d):
            key = (id(M), f, tuple(sorted(kw)))
            if key not in _an: _an[key] = analyze(M, f, nonnull=(0,), **{**dict(stable=fixed(M)), **kw})
            out.append((d, _an[key]))
    if not out: raise AnalysisBroken(f"no method {pat} in taintdag::PolyTracker")
    return out
class Res:
    """a reservation on a path: section, start address, byte count, the store that claims it, and the writes into it"""
    def __init__(s, sec, start, n, ev, i): s.sec, s.start, s.n, s.ev, s.i, s.writes = sec, start, n, ev, i, []
    def field(s, off, size):
        for e in s.writes:
            if e.kind == "store" and sub(e.addr, s.start) == const(off, 64) and e.size == size: return e.val
        return None
def reservations(A, p, L):
    out = []
    secs = [x for x in L.values() if isinstance(x, Sec)]
    for i, e in enumerate(p.events):
        if e.kind != "store": continue
        for x in secs:
            if e.addr == x.pos:
                old = mem_at(A, p, e, e.addr, 8)
                out.append(Res(x, old, sub(e.val, old), e, i)); break
        else:
            for r in reversed(out):
                d = sub(e.addr, r.start)
                if isinstance(d, Lin) and not any(a in dict(r.start.t) for a, _ in d.t) and base_of(e.addr) == base_of(r.start): r.writes.append(e); break
    return out
def bitflag(p, a, i):
    """what the path's conditions say about bit i of atom a: True / False / None"""
    for c in p.facts.conds:
        if c[0] == "bool":
            x = c[1]
            if x == a and i == 0: return bool(c[2])
            if isinstance(x, tuple) and x[0] == "trunc" and x[1] == 1 and bits(x[2])[0] == (a, i): return bool(c[2])
            continue
        x, y = c[1], c[2]
        if isinstance(y, Lin) and not y.const and isinstance(x, Lin) and x.const: x, y, pr = y, x, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(c[0], c[0])
        else: pr = c[0]
        if not (isinstance(x, Lin) and isinstance(y, Lin) and y.const): continue
        b = bits(x)
        nz = [k for k, v in enumerate(b) if v != 0]
        if pr in ("eq", "ne") and len(nz) == 1 and b[nz[0]] == (a, i):
            if y.c == 0: return pr == "ne"
            if y.c == 1 << nz[0]: return pr == "eq"
        # value and flag in one register: everything above the flag bit is zero
        if x.single() == a:
            if pr == "ult" and y.c == 1 << i or pr == "ule" and y.c == (1 << i) - 1: return False
            if pr == "uge" and y.c == 1 << i or pr == "ugt" and y.c == (1 << i) - 1: return True
    return None
def is_field(t, a, lo, n, p=None):
    """term t is exactly bits [lo, lo+n) of atom a, zero-extended"""
    if not isinstance(t, Lin): return False
    b = bits(t)
    return len(b) >= n and all(b[k] == (a, lo + k) for k in range(n)) and all(x == 0 for x in b[n:])
def Klist(t):
    return [a for a, k in t.t if a[0] == "K"] if isinstance(t, Lin) else []
def stopped(p):
    """the path ends the program with an error"""
    return p.end == "noreturn" and (errexit(p) or any("__throw_" in (e.dname or "") or e.callee in ("abort", "exit", "_exit") for e in p.calls()))
def calls(p, rx): return [e for e in p.calls() if e.dname and rx.search(e.dname)]
def held(p, upto, lock):
    h = 0
    for e in p.events[:upto]:
        if e.kind != "call" or not e.args or e.args[0] != lock: continue
        if e.callee == "pthread_mutex_lock": h += 1
        elif e.callee == "pthread_mutex_unlock": h -= 1
    return h
