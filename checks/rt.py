"""Shared access to the analysed runtime (the C++ sources under polytracker/src and include)."""
import re
from engine import cxx, prep
from engine.absint import Analyzer, analyze, State, base_of
from engine.terms import Lin, const, atom, add, sub, scale, atoms_of, mentions, show, bits
from engine.cxx import AnalysisBroken

API = re.compile(r"^taintdag::PolyTracker::~?\w+\(")
_HEAVY = re.compile(r"^std::(__cxx11::|filesystem::|__gnu_cxx::)*(__cxx11::)?(basic_(string|ostream|istream|iostream|stringstream|ostringstream|ios|streambuf|stringbuf)|path|ostream|file_size|to_string|error_code)(::|$)|^std::operator(<<|\+)$|^std::filesystem::|__to_xstring")
def STDHEAVY(d):
    if re.match(r"(bool )?std::operator==", d): return "basic_string<" in d or "filesystem" in d
    return d.startswith(("std::", "__gnu", "void std::", "bool std::")) and bool(_HEAVY.search(prep.bare(d))) or bool(re.match(r"(std::\S+(<.*>)?&? )?std::(operator<<|operator\+)", d))
_mod = {}
def wrappers():
    """every __dfsw_ wrapper of the runtime, tracing API calls kept as calls"""
    if "w" not in _mod:
        srcs = cxx.runtime_sources()
        bcs = cxx.compile_many([(s, None) for s in srcs])
        M = prep.prepare(bcs, [re.compile(r"^__dfsw_\w+$")], [API, STDHEAVY])
        M.sources = srcs
        _mod["w"] = M
    return _mod["w"]
_an = {}
def wrapper(name, M=None):
    M = M or wrappers()
    sym = "__dfsw_" + name
    if sym not in M.rootset: return None
    if (id(M), sym) not in _an:
        args = M.fn(sym).args
        # the return-label slot (last pointer parameter) belongs to the caller's frame
        priv = {len(args) - 1} if args and args[-1].ty == "ptr" else ()
        _an[(id(M), sym)] = analyze(M, sym, max_paths=4000, private=priv)
    return _an[(id(M), sym)]
def arg(i, w=64): return atom(("arg", i), w)
def at(A, i):
    """term of the i-th parameter"""
    a = A.F.args[i]
    return atom(("arg", i), A._width(a.ty))
def errexit(p): return [e for e in p.calls() if e.dname and "taintdag::error_exit<" in e.dname]
def api(p, name):
    return [e for e in p.calls() if e.dname and re.match(r"(std::\S+ )?taintdag::PolyTracker::" + name + r"\(", e.dname)]
def where(p):
    return ", ".join(f"{f.split('/')[-1]}:{l}" for f, l in p.lines[-1:]) if p.lines else p.fn.dname
def conds(p):
    return " && ".join(f"{c[1]} {c[0]} {c[2]}" for c in p.facts.conds[-6:])
def mem_at(A, p, ev, addr, size):
    """memory content just before/at event ev"""
    st = State(); st.mem = ev.mem; st.escaped = set(); st.facts = p.facts; st.env = p.env
    return A._load(st, addr, size, None, allesc=False)
def optional_arg(A, p, ev, i):
    """an Offset-like std::optional argument starting at parameter i: (value, engaged, next index).
    Passed in registers (value, flag) or by reference."""
    a = ev.args[i]
    b = base_of(a) if isinstance(a, Lin) else None
    if b and b[0] == "alloca":
        st = State(); st.mem = ev.mem; st.escaped = set(); st.facts = p.facts; st.env = p.env
        return A._load(st, a, 8, None), A._load(st, Lin(64, a.c + 8, a.t), 1, None), i + 1
    return a, ev.args[i + 1], i + 2
def flag(p, t):
    """truth of a bool-ish term on a path: True / False / None"""
    if isinstance(t, Lin) and t.const: return bool(t.c & 1)
    if isinstance(t, Lin):
        h = p.facts.holds("eq", t, const(0, t.w))
        if h is not None: return not h
    return None
def seq_index(p, e): return p.events.index(e)
def same_value(p, a, b):
    """the two terms are equal on this path: by construction, or because the path's conditions say so"""
    return a == b or (isinstance(a, Lin) and isinstance(b, Lin) and a.w == b.w and p.facts.holds("eq", a, b) is True)
