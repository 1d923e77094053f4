"""The trace file: what the constructor leaves in the mapped header and in the section objects, what the destructor writes
back, read off the analysed constructor and destructor (a straight-line replay of the stores of every path)."""
from . import core
from .rt import *
from engine import llvmc
def const_of(M, n):
    c = M.global_init(n)
    if c is None: raise AnalysisBroken(f"witness constant {n} is missing")
    return c.v
def special(M, pat):
    for f in sorted(M.rootset):
        if re.search(pat, llvmc.demangle(f)): return f
    raise AnalysisBroken(f"no function {pat}")
def construct(M, fn=None):
    fn = fn or special(M, r"^taintdag::PolyTracker::PolyTracker\(std::filesystem")
    return analyze(M, fn, nonnull=(0,), private=(0,))
def destroy(M, fn=None):
    fn = fn or special(M, r"^taintdag::PolyTracker::~PolyTracker\(")
    return analyze(M, fn, nonnull=(0,), private=(0,))
class Image:
    """memory written by one path relative to one base atom: (offset, size, value, event), last write wins"""
    def __init__(s, M, p, base):
        s.M, s.p, s.base, s.w = M, p, base, []
        for e in p.events:
            if e.kind in ("store", "memset", "memcpy"):
                if not isinstance(e.addr, Lin): continue
                d = sub(e.addr, base)
                if d.const and d.sc >= 0: s.w.append((d.c, e.size if isinstance(e.size, int) else (e.size.c if isinstance(e.size, Lin) and e.size.const else None), e))
    def byte(s, o):
        """(value term or int, byte index) of the byte at offset o; None: never written"""
        for off, n, e in reversed(s.w):
            if n is None: return ("?", e)
            if off <= o < off + n:
                if e.kind == "memset": return ((e.val.c & 255) if isinstance(e.val, Lin) and e.val.const else "?", 0)
                if e.kind == "memcpy":
                    b = s.src(e, o - off)
                    return (b if b is not None else "?", 0)
                if isinstance(e.val, Lin) and e.val.const: return ((e.val.c >> (8 * (o - off))) & 255, 0)
                return (e.val, o - off)
        return None
    def src(s, e, k):
        g = base_of(e.val) if isinstance(e.val, Lin) else None
        if not g or g[0] != "glob": return None
        try: raw = s.M.global_bytes(g[1])
        except Exception: return None
        d = sub(e.val, atom(g, 64))
        return raw[d.c + k] if raw is not None and d.const and d.c + k < len(raw) else None
    def get(s, o, n):
        """the n-byte value at offset o: int, term, or None when (partly) unknown or unwritten"""
        bs = [s.byte(o + i) for i in range(n)]
        if any(b is None or b[0] == "?" for b in bs): return None
        if all(isinstance(b[0], int) for b in bs): return sum(b[0] << (8 * i) for i, b in enumerate(bs))
        v = bs[0][0]
        if isinstance(v, Lin) and v.w == 8 * n and all(b[0] is v and b[1] == i for i, b in enumerate(bs)): return v
        return None
def mapping(p):
    m = [e for e in p.calls("mmap")]
    return m[0].res if len(m) == 1 else None
