"""Value domain of the IR analysis: hash-consed linear terms over opaque atoms, and a
bit-provenance view of them.

A term is either
  Lin(w, c, ((atom, coef), ...))   an integer/pointer of width w, modulo 2**w
where an atom is a tuple describing a value the analysis does not decompose:
  ('arg', i)  ('glob', name)  ('alloca', id)  ('call', uid, callee)  ('ld', addr, size, ver)
  ('iv', loop, phi)  ('K', loop)  ('op', opc, w, a, b)  ('zext'|'sext'|'trunc', w, term)
  ('cmp', pred, a, b)  ('sel', c, a, b)  ('ext', term, path)  ('ins'...), ('undef', n)
"""
from functools import lru_cache

class Lin:
    __slots__ = ("w", "c", "t", "_h")
    def __init__(self, w, c, t=()):
        self.w = w
        m = (1 << w) if w else 0
        self.c = c % m if m else c
        self.t = t
        self._h = hash((w, self.c, t))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and o._h == self._h and o.w == self.w and o.c == self.c and o.t == self.t
    def __repr__(self): return show(self)
    @property
    def const(self): return not self.t
    def single(self):
        """the atom, if the term is exactly one atom"""
        return self.t[0][0] if len(self.t) == 1 and self.c == 0 and self.t[0][1] == 1 else None
    @property
    def sc(self):
        return self.c - (1 << self.w) if self.w and self.c >> (self.w - 1) else self.c

def const(v, w): return Lin(w, v)
def atom(a, w): return Lin(w, 0, ((a, 1),))
def _norm(w, c, d):
    m = 1 << w
    half = m >> 1
    items = []
    for a, k in d.items():
        k %= m
        if k:
            if k >= half and w > 1: k -= m
            items.append((a, k))
    items.sort(key=lambda x: repr(x[0]))
    return Lin(w, c, tuple(items))
def add(a, b, w=None):
    w = w or a.w
    d = dict(a.t)
    for x, k in b.t: d[x] = d.get(x, 0) + k
    return _norm(w, a.c + b.c, d)
def scale(a, k, w=None):
    w = w or a.w
    return _norm(w, a.c * k, {x: v * k for x, v in a.t})
def sub(a, b): return add(a, scale(b, -1, a.w))
def addc(a, n): return Lin(a.w, a.c + n, a.t)

def subst(t, f):
    """replace atoms: f(atom) -> Lin | None (None: rebuild the atom from its parts)"""
    r = Lin(t.w, t.c)
    for a, k in t.t:
        x = f(a)
        if x is None:
            x = _sub_atom(a, t.w, f)
        if x.w != t.w: x = Lin(t.w, x.c, x.t)
        r = add(r, scale(x, k, t.w), t.w)
    return r
def _sub_atom(a, w, f):
    def g(p):
        if isinstance(p, Lin): return subst(p, f)
        if isinstance(p, tuple): return tuple(g(q) for q in p)
        return p
    return atom(tuple(g(p) for p in a), w)

def atoms_of(t, acc=None):
    """every atom inside a term, nested ones included"""
    acc = set() if acc is None else acc
    def go(p):
        if isinstance(p, Lin):
            for a, _ in p.t:
                if a not in acc:
                    acc.add(a); go(a)
        elif isinstance(p, tuple):
            if p and isinstance(p[0], str) and p not in acc and len(p) > 1: pass
            for q in p: go(q)
    go(t)
    return acc

def mentions(t, pred):
    return any(pred(a) for a in atoms_of(t))

def show(t, depth=0):
    if isinstance(t, Lin):
        if not t.t: return str(t.sc)
        p = []
        for a, k in t.t:
            s = show_atom(a, depth + 1)
            p.append(s if k == 1 else f"{k}*{s}")
        if t.c: p.append(str(t.sc))
        return " + ".join(p)
    return str(t)
def show_atom(a, depth=0):
    if depth > 6: return "..."
    k = a[0]
    if k == "arg": return f"arg{a[1]}"
    if k == "glob": return f"@{a[1]}"
    if k == "alloca": return f"stack{a[1]}"
    if k == "call": return f"{a[2]}#{a[1]}"
    if k == "pure": return f"{a[1]}({', '.join(show(x, depth) for x in a[2])})"
    if k == "ld": return f"*[{show(a[1], depth)}]"
    if k == "iv": return f"iv{a[1]}.{a[2]}"
    if k == "K": return f"K{a[1]}"
    if k == "op": return f"({show(a[3], depth)} {a[1]} {show(a[4], depth)})"
    if k in ("zext", "sext", "trunc"): return f"{k}{a[1]}({show(a[2], depth)})"
    if k == "cmp": return f"({show(a[2], depth)} {a[1]} {show(a[3], depth)})"
    if k == "sel": return f"({show(a[1], depth)} ? {show(a[2], depth)} : {show(a[3], depth)})"
    if k == "ext": return f"{show(a[1], depth) if isinstance(a[1], Lin) else show_atom(a[1], depth)}.{'.'.join(map(str, a[2]))}"
    return str(a)

# ---------------------------------------------------------------- bit provenance
# a bit is 0, 1, (atom, i) "bit i of atom", or None (unknown)
def bits(t, env=None):
    """bit-provenance vector (LSB first) of a Lin; env: atom -> list of bits overrides"""
    w = t.w
    if not t.t: return [(t.c >> i) & 1 for i in range(w)]
    acc = None
    parts = [(_abits(a, w, env), k) for a, k in t.t]
    vecs = []
    for v, k in parts:
        if k > 0 and k & (k - 1) == 0:
            s = k.bit_length() - 1
            vecs.append(([0] * s + v)[:w])
        elif k == -(1 << (w - 1)):      # the top bit, signed spelling of 2**(w-1)
            vecs.append(([0] * (w - 1) + v)[:w])
        else:
            return [(("lin", t), i) for i in range(w)]
    if t.c: vecs.append([(t.c >> i) & 1 for i in range(w)])
    out = vecs[0]
    for v in vecs[1:]:
        # disjoint sum == or; anything else may carry
        o2 = []
        for x, y in zip(out, v):
            if x == 0: o2.append(y)
            elif y == 0: o2.append(x)
            else: return o2 + [(("lin", t), i) for i in range(len(o2), w)]
        out = o2
    return out
def _ext(v, w, fill=0):
    return (v + [fill] * w)[:w]
def _abits(a, w, env):
    if env and a in env: return _ext(list(env[a]), w)
    k = a[0]
    if k == "zext": return _ext(bits(a[2], env), w)
    if k == "sext":
        v = bits(a[2], env); return _ext(v, w, v[-1])
    if k == "trunc": return _ext(bits(a[2], env)[:a[1]], w)
    if k == "op":
        o, x, y = a[1], a[3], a[4]
        if o in ("lshr", "ashr", "shl") and y.const:
            v = bits(x, env); n = len(v)
            if o == "shl": return _ext(([0] * y.c + v)[:n], w)
            top = v[-1] if o == "ashr" else 0
            return _ext(v[y.c:] + [top] * min(y.c, n), w)
        if o in ("and", "or", "xor"):
            u, v = bits(x, env), bits(y, env); out = []
            for p, q in zip(u, v):
                if o == "and": r = 0 if p == 0 or q == 0 else (q if p == 1 else (p if q == 1 else (p if p == q else None)))
                elif o == "or": r = 1 if p == 1 or q == 1 else (q if p == 0 else (p if q == 0 else (p if p == q else None)))
                else: r = q if p == 0 else (p if q == 0 else (0 if p == q and p is not None else None))
                out.append(r)
            return _ext(out, w)
        if o == "fshl" or o == "fshr": return [None] * w
    if k == "sel":
        u, v = bits(a[2], env), bits(a[3], env)
        return _ext([p if p == q else None for p, q in zip(u, v)], w)
    n = a_width(a) or w
    return _ext([(a, i) for i in range(n)], w)
_W = {}
def set_width(a, w): _W[a] = w
def a_width(a): return _W.get(a)
