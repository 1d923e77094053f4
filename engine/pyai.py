"""Path-sensitive value-flow analysis of Python source (syntax trees of the current tree, nothing is imported or run).

Functions are followed statement by statement over abstract values; helpers of the package are expanded at the call;
every branch that the known facts do not decide is followed both ways. A loop is covered by one generic iteration: what
the body changes is first forgotten (or, when every way through the body adds the same constant, kept as start + step*k),
then the body is followed from that state, so what is found there holds for every iteration. The result of a function is
the list of its paths: facts assumed, events (values yielded, objects mutated, calls into unknown code, loops with the
paths of their generic iteration) and how the path ends.

Values are tuples: ('i', c, terms) integers as linear terms over atoms, ('c', x) constants, ('tup', ...), ('view', base,
lo, hi) part of a byte buffer, ('ref', n) heap object, ('rec', class, base, off) a ctypes structure read from a buffer,
('rd', base, off, width, signed) an integer read from a buffer, ('bits', pieces) bits of other values, and opaque terms."""
import ast, os
from .cxx import AnalysisBroken

INF = 1 << 20
class Broken(AnalysisBroken): pass

# ---------------------------------------------------------------- integers
def mk(c, d):
    d = {a: k for a, k in d.items() if k}
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1: return a
    return ("i", c, tuple(sorted(d.items(), key=repr)))
def I(c): return ("i", c, ())
def parts(v):
    if v[0] == "i": return v[1], dict(v[2])
    if v[0] == "c" and isinstance(v[1], bool): return int(v[1]), {}
    return 0, {v: 1}
def add(a, b, s=1):
    ca, da = parts(a); cb, db = parts(b); da = dict(da)
    for k, v in db.items(): da[k] = da.get(k, 0) + s * v
    return mk(ca + s * cb, da)
def sub(a, b): return add(a, b, -1)
def scale(a, n):
    c, d = parts(a); return mk(c * n, {k: v * n for k, v in d.items()})
def num(v):
    if v[0] == "i" and not v[2]: return v[1]
    if v[0] == "c" and isinstance(v[1], bool): return int(v[1])
    return None
def width(a):
    """number of significant bits of a value known to be non-negative, INF when unknown"""
    n = num(a)
    if n is not None: return n.bit_length() if n >= 0 else INF
    if a[0] == "rd": return 8 * a[3] if not a[4] else INF
    if a[0] == "bits": return max((at + w for _, _, w, at in a[1]), default=0)
    if a[0] == "bool": return 1
    return INF
def pieces(a):
    if a[0] == "bits": return list(a[1])
    if num(a) == 0: return []
    w = width(a)
    return [(a, 0, w, 0)]
def mkbits(ps):
    ps = sorted((p for p in ps if p[2] > 0), key=lambda p: (p[3], repr(p[0])))
    out = []
    for p in ps:
        if out and out[-1][0] == p[0] and out[-1][1] + out[-1][2] == p[1] and out[-1][3] + out[-1][2] == p[3]:
            q = out.pop(); p = (q[0], q[1], q[2] + p[2], q[3])
        out.append(p)
    if not out: return I(0)
    if len(out) == 1 and out[0][1] == 0 and out[0][3] == 0 and out[0][2] >= width(out[0][0]): return out[0][0]
    return ("bits", tuple(out))
def runs(mask):
    r, i = [], 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1: j += 1
            r.append((i, j)); i = j
        else: i += 1
    return r
def shr(a, b):
    n, m = num(a), num(b)
    if n is not None and m is not None: return I(n >> m)
    if m == 0: return a
    if a[0] == "op" and a[1] == "shr": return shr(a[2], add(a[3], b))
    if m is not None and n is None and not (a[0] == "i"):
        return mkbits([(s, lo + max(0, m - at), w - max(0, m - at) if w < INF else INF, max(0, at - m)) for s, lo, w, at in pieces(a) if at + w > m])
    return ("op", "shr", a, b)
def shl(a, b):
    n, m = num(a), num(b)
    if n is not None and m is not None and m >= 0: return I(n << m)
    if m is not None:
        if a[0] == "bits" or width(a) < INF: return mkbits([(s, lo, w, at + m) for s, lo, w, at in pieces(a)])
        return scale(a, 1 << m)
    if n == 0: return I(0)
    return ("op", "shl", a, b)
def band(a, b):
    n, m = num(a), num(b)
    if n is not None and m is None: a, b, n, m = b, a, m, n
    if n is not None and m is not None: return I(n & m)
    if m is not None and m >= 0:
        if a[0] == "i":
            a = ("op", "int", a)
        out = []
        for s, lo, w, at in pieces(a):
            for i, j in runs(m):
                x, y = max(i, at), min(j, at + w)
                if x < y: out.append((s, lo + x - at, y - x, x))
        return mkbits(out)
    for x, y in ((a, b), (b, a)):
        if y[0] == "op" and y[1] == "shl" and num(y[2]) == 1: return ("op", "shl", band(shr(x, y[3]), I(1)), y[3])
    return ("op", "and") + tuple(sorted((a, b), key=repr))
def bor(a, b):
    n, m = num(a), num(b)
    if n is not None and m is not None: return I(n | m)
    if n == 0: return b
    if m == 0: return a
    if a == b: return a
    if width(a) < INF and width(b) < INF and n is None and m is None:
        pa, pb = pieces(a), pieces(b)
        if not any(max(p[3], q[3]) < min(p[3] + p[2], q[3] + q[2]) for p in pa for q in pb): return mkbits(pa + pb)
    return ("op", "or") + tuple(sorted((a, b), key=repr))
def mul(a, b):
    n, m = num(a), num(b)
    if n is not None: return scale(b, n)
    if m is not None: return scale(a, m)
    for x, y in ((a, b), (b, a)):
        if y[0] == "op" and y[1] == "shl" and num(y[2]) == 1: return shl(x, y[3])
    return ("op", "mul") + tuple(sorted((a, b), key=repr))
def fdiv(a, b):
    n, m = num(a), num(b)
    if n is not None and m: return I(n // m)
    if m == 1: return a
    if m and m > 0:
        if a[0] in ("rd", "bits") and m & (m - 1) == 0: return shr(a, I(m.bit_length() - 1))
        c, d = parts(a)
        if c % m == 0 and all(k % m == 0 for k in d.values()): return mk(c // m, {x: k // m for x, k in d.items()})
    return ("op", "fdiv", a, b)
def mod(a, b):
    n, m = num(a), num(b)
    if n is not None and m: return I(n % m)
    if m and m > 0:
        if a[0] in ("rd", "bits") and m & (m - 1) == 0: return band(a, I(m - 1))
        c, d = parts(a)
        if all(k % m == 0 for k in d.values()): return I(c % m)
    return ("op", "mod", a, b)
def nonneg(a):
    n = num(a)
    if n is not None: return n >= 0
    if a[0] == "i": return a[1] >= 0 and all(k > 0 and nonneg(x) for x, k in a[2])
    if a[0] == "rd": return not a[4]
    if a[0] == "op" and a[1] in ("fdiv", "mod", "shr", "shl", "max"): return all(nonneg(x) for x in a[2:])
    return a[0] in ("bits", "len", "k", "K", "bool", "nn")

# ---------------------------------------------------------------- conditions
def le(a, b): return ("le0", sub(a, b))
def lt(a, b): return ("le0", add(sub(a, b), I(1)))
def eqc(a, b):
    d = sub(a, b)
    if d[0] == "i" and d[2] and d[2][0][1] < 0: d = scale(d, -1)
    return ("eq0", d)
def neg(c):
    if c is True: return False
    if c is False: return True
    if c[0] == "not": return c[1]
    if c[0] == "le0": return ("le0", sub(I(1), c[1]))
    return ("not", c)

class St:
    __slots__ = ("frames", "cur", "heap", "facts", "ev", "pending", "alive")
    def __init__(s): s.frames, s.cur, s.heap, s.facts, s.ev, s.pending = [], -1, {}, (), (), None
    def copy(s):
        n = St(); n.frames = [dict(f) for f in s.frames]; n.cur = s.cur; n.heap = dict(s.heap); n.facts = s.facts; n.ev = s.ev; n.pending = s.pending
        return n
    @property
    def env(s): return s.frames[s.cur]
    def emit(s, *e): s.ev = s.ev + (e,)

class Obj:
    """heap object, immutable: kind 'inst' (cls, attrs) | 'list' (segs) | 'set' (segs) | 'dict' (base, writes) | 'bytes' (length, writes)"""
    __slots__ = ("kind", "cls", "data", "at")
    def __init__(s, kind, cls, data, at=0): s.kind, s.cls, s.data, s.at = kind, cls, data, at
    def __eq__(s, o): return isinstance(o, Obj) and (s.kind, s.cls, s.data) == (o.kind, o.cls, o.data)
    def __hash__(s): return hash((s.kind, s.cls))
    def __repr__(s): return f"{s.kind}<{s.cls or ''} {s.data}>"

class Loop:
    """summary of one loop: paths of its generic iteration, each (state, outcome); facts/events of a path after `base`"""
    def __init__(s, id, line): s.id, s.line, s.iter, s.head, s.entry, s.paths, s.exits, s.cond = id, line, None, None, None, [], [], None
    def __repr__(s): return f"Loop{s.id}@{s.line}({len(s.paths)} paths over {s.iter})"
class PathRec:
    def __init__(s, loop, st, out): s.loop, s.st, s.out = loop, st, out
    @property
    def events(s): return s.st.ev[len(s.loop.head.ev):]
    @property
    def facts(s): return s.st.facts[len(s.loop.head.facts):]

class Module:
    def __init__(s, name, path):
        s.name, s.path = name, path
        s.tree = ast.parse(open(path).read(), path)
        s.funcs, s.classes, s.consts, s.imports = {}, {}, {}, {}
        for n in s.tree.body: s.top(n)
    def top(s, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): s.funcs[n.name] = n
        elif isinstance(n, ast.ClassDef): s.classes[n.name] = Class(s, n)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name): s.consts[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None: s.consts[n.target.id] = n.value
        elif isinstance(n, ast.ImportFrom):
            for a in n.names: s.imports[a.asname or a.name] = (n.level, n.module, a.name)
        elif isinstance(n, ast.Import):
            for a in n.names: s.imports[a.asname or a.name.split(".")[0]] = (0, None, a.name)
        elif isinstance(n, (ast.If, ast.Try)):
            for x in n.body: s.top(x)
class Class:
    def __init__(s, mod, node):
        s.mod, s.node, s.name = mod, node, node.name
        s.methods, s.consts = {}, {}
        s.bases = [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None for b in node.bases]
        s.inner = {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                deco = [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "" for d in n.decorator_list]
                if "setter" in deco: continue
                s.methods[n.name] = (n, "static" if "staticmethod" in deco else "class" if "classmethod" in deco else "prop" if ("property" in deco or "cached_property" in deco) else "abstract" if "abstractmethod" in deco else "method")
                if "abstractmethod" in deco and "property" in deco: s.methods[n.name] = (n, "prop")
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): s.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None: s.consts[n.target.id] = n.value
            elif isinstance(n, ast.ClassDef): s.inner[n.name] = Class(mod, n)

CT = {"c_uint8": (0, 1), "c_uint16": (0, 2), "c_uint32": (0, 4), "c_uint64": (0, 8), "c_int8": (1, 1), "c_int16": (1, 2), "c_int32": (1, 4), "c_int64": (1, 8), "c_ubyte": (0, 1), "c_byte": (1, 1),
      "c_char": (None, 1), "c_int": (1, 4), "c_uint": (0, 4), "c_long": (1, 8), "c_ulong": (0, 8), "c_short": (1, 2), "c_ushort": (0, 2), "c_longlong": (1, 8), "c_ulonglong": (0, 8), "c_size_t": (0, 8), "c_bool": (0, 1)}
class NoValue(Exception): pass

class Program:
    def __init__(s, root, pkg="polytracker"):
        s.root, s.pkg, s.mods = root, pkg, {}
    def mod(s, name):
        if name not in s.mods:
            p = os.path.join(s.root, s.pkg, name + ".py")
            if not os.path.exists(p): raise Broken(f"{s.pkg}/{name}.py is not there")
            s.mods[name] = Module(name, p)
        return s.mods[name]
    def resolve(s, m, name, depth=0):
        """('class', Class) | ('func', Module, node) | ('const', Module, expr) | ('ext', dotted) | None"""
        if name in m.classes: return ("class", m.classes[name])
        if name in m.funcs: return ("func", m, m.funcs[name])
        if name in m.consts: return ("const", m, m.consts[name])
        if name in m.imports:
            lvl, mod, n = m.imports[name]
            if lvl == 1 and mod and os.path.exists(os.path.join(s.root, s.pkg, mod.split(".")[0] + ".py")) and depth < 5:
                r = s.resolve(s.mod(mod), n, depth + 1)
                if r: return r
            if lvl == 1 and not mod and os.path.exists(os.path.join(s.root, s.pkg, n + ".py")): return ("pkgmod", n)
            return ("ext", f"{mod}.{n}" if mod else n)
        return None
    def find_class(s, name):
        for m in list(s.mods.values()):
            if name in m.classes: return m.classes[name]
        return None
    def base(s, c):
        for b in c.bases:
            r = s.resolve(c.mod, b) if b else None
            if r and r[0] == "class": yield r[1]
    def mro(s, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out: out.append(x); todo += list(s.base(x))
        return out
    def method(s, c, name):
        for x in s.mro(c):
            if name in x.methods: return x, x.methods[name]
        return None
    def is_struct(s, c): return any(b in ("Structure", "LittleEndianStructure") for x in s.mro(c) for b in x.bases)
    def fields(s, c):
        """[(name, offset, size, signed|None)], total size, alignment"""
        if not hasattr(c, "_fl"):
            pack = c.consts.get("_pack_"); pack = pack.value if isinstance(pack, ast.Constant) else 0
            off, al, out = 0, 1, []
            fl = next((x.consts["_fields_"] for x in s.mro(c) if "_fields_" in x.consts), None)
            if fl is None or not isinstance(fl, (ast.List, ast.Tuple)): raise Broken(f"{c.name}._fields_ is not a literal list")
            for e in fl.elts:
                t = e.elts[1]; n = 1
                if len(e.elts) > 2: raise Broken(f"{c.name}: bit fields are not supported")
                if isinstance(t, ast.BinOp) and isinstance(t.op, ast.Mult):
                    cnt = t.right if isinstance(t.right, ast.Constant) else t.left
                    t = t.left if cnt is t.right else t.right; n = cnt.value
                nm = t.id if isinstance(t, ast.Name) else t.attr
                if nm in CT: sg, w = CT[nm]; a = w
                else:
                    k = s.resolve(c.mod, nm)
                    if not k or k[0] != "class": raise Broken(f"{c.name}: field type {nm}")
                    _, w, a = s.fields(k[1]); sg = None
                if pack: a = min(a, pack)
                off = (off + a - 1) // a * a
                out.append((e.elts[0].value, off, w * n, sg if n == 1 else None)); off += w * n; al = max(al, a)
            c._fl = (out, (off + al - 1) // al * al, al)
        return c._fl

class Interp:
    MAXDEPTH, MAXSTATES = 24, 4000
    def __init__(s, prog, models=None):
        s.P, s.models, s.n, s.gens, s.depth = prog, models or {}, 0, {}, 0
        s.notes = []; s.loops = {}
    def fresh(s): s.n += 1; return s.n
    # ------------------------------------------------------------ facts
    def decide(s, st, c, deep=True):
        if c is True or c is False: return c
        if c[0] == "not":
            r = s.decide(st, c[1]); return None if r is None else not r
        if c[0] == "le0":
            L = c[1]; n = num(L)
            if n is not None: return n <= 0
            if s.ent(st, L): return True
            if s.ent(st, sub(I(1), L)): return False
            return None
        if c[0] == "eq0":
            L = c[1]; n = num(L)
            if n is not None: return n == 0
            if s.ent(st, add(L, I(1))) or s.ent(st, sub(I(1), L)): return False
            for f, b in st.facts:
                if f == c: return b
            if s.ent(st, L) and s.ent(st, scale(L, -1)): return True
            w = width(L) if L[0] != "i" else None
            if L[0] == "i" and len(L[2]) == 1 and abs(L[2][0][1]) == 1:      # x == n
                x, k = L[2][0]; n = -L[1] * k; w = width(x)
                if n < 0 and nonneg(x) or (w < INF and n >= 1 << w): return False
                for f, b in st.facts:                                        # x == m known
                    if b and f[0] == "eq0" and f[1][0] == "i" and len(f[1][2]) == 1 and f[1][2][0][0] == x and abs(f[1][2][0][1]) == 1 and -f[1][1] * f[1][2][0][1] != n: return False
                    if b and f == ("eq0", x) and n != 0: return False
                if w == 1 and n in (0, 1):
                    for f, b in st.facts:
                        if f == ("eq0", x): return b if n == 0 else not b
            elif L[0] != "i" and L[0] == "bits":
                for f, b in st.facts:
                    if b and f[0] == "eq0" and f[1][0] == "i" and len(f[1][2]) == 1 and f[1][2][0][0] == L and f[1][1] != 0: return False
            return None
        for f, b in st.facts:
            if f == c: return b
        return None
    def ent(s, st, L):
        """is L <= 0 known?"""
        fs = []
        for f, b in st.facts:
            if f[0] == "le0" and b: fs.append(f[1])
            elif f[0] == "eq0" and b: fs += [f[1], scale(f[1], -1)]
        for a in {a for x in [L] + fs for a in parts(x)[1]}:
            if a[0] == "op" and a[1] == "fdiv" and (num(a[3]) or 0) > 0:
                m = num(a[3]); fs += [sub(scale(a, m), a[2]), sub(sub(a[2], scale(a, m)), I(m - 1))]
        dl = parts(L)[1]
        for f in list(fs):
            df = parts(f)[1]
            for q in {abs(dl[a]) // abs(df[a]) for a in df if a in dl and dl[a] % df[a] == 0}:
                if 1 < q <= 4096: fs.append(scale(f, q))
        def triv(x):
            c, d = parts(x)
            return c <= 0 and all(k < 0 and nonneg(a) for a, k in d.items())
        def triv2(x):
            if triv(x): return True
            c, d = parts(x)           # positive coefficients on atoms of known width
            ub = c
            for a, k in d.items():
                if k < 0:
                    if not nonneg(a): return False
                elif width(a) < 512: ub += k * ((1 << width(a)) - 1)
                else: return False
            return ub <= 0
        if triv2(L): return True
        for f in fs:
            if triv2(sub(L, f)): return True
        for i, f in enumerate(fs):
            d = sub(L, f)
            for g in fs[i:]:
                if triv2(sub(d, g)): return True
        return False
    def assume(s, st, c, pol=True):
        """None when impossible"""
        if not pol: c = neg(c)
        r = s.decide(st, c)
        if r is True: return st
        if r is False: return None
        b = True
        while c[0] == "not": c, b = c[1], not b
        n = st.copy(); n.facts = st.facts + ((c, b),)
        if c[0] == "eq0" and not b:
            L = c[1]                               # x != 0 with x >= 0 or x <= 0 sharpens
            if s.ent(st, L): n.facts += ((("le0", add(L, I(1))), True),)
            elif s.ent(st, scale(L, -1)) or nonneg(L): n.facts += ((("le0", sub(I(1), L)), True),)
        return n
    def fork(s, st, c):
        if c is True or c is False: return [(st, c)]
        r = s.decide(st, c)
        if r is not None: return [(st, r)]
        if c[0] in ("and", "or"):
            out = []
            for st1, b in s.fork(st, c[1]):
                if b == (c[0] == "or"): out.append((st1, b))
                else: out += s.fork(st1, c[2])
            return out
        if c[0] == "not" and c[1][0] in ("and", "or"): return [(x, not b) for x, b in s.fork(st, c[1])]
        out = []
        for b in (True, False):
            n = s.assume(st, c, b)
            if n is not None: out.append((n, b))
        return out
    def truth(s, st, v):
        t = v[0]
        if t == "bool": return v[1]
        if t == "c": return bool(v[1])
        if t == "i" or t in ("rd", "bits", "len", "k", "K"): return neg(eqc(v, I(0)))
        if t == "op" and v[1] == "shl" and width(v[2]) == 1: return neg(eqc(v[2], I(0)))
        if t == "op" and v[1] in ("fdiv", "mod", "shr", "shl", "and", "or", "mul"): return neg(eqc(v, I(0)))
        if t == "view": return lt(v[2], v[3])
        if t == "tup": return len(v[1]) > 0
        if t in ("cls", "fn", "rec", "gen"): return True
        if t == "range": return lt(v[1], v[2])
        if t == "ref":
            o = st.heap[v[1]]
            if o.kind in ("list", "set"):
                if any(x[0] == "item" for x in o.data): return True
                if not o.data: return False
                return ("nonempty", tuple(o.data)) if o.kind == "set" else lt(I(0), s.length(st, v))
            if o.kind == "dict":
                if o.data[1]: return True
                return False if o.data[0] is None else ("nonempty", o.data[0])
            if o.kind == "bytes": return lt(I(0), o.data[0])
            if s.P.method(o.cls, "__bool__") if o.cls else None: return ("truthy", v)
            if s.P.method(o.cls, "__len__") if o.cls else None: return ("truthy", v)
            return True
        return ("truthy", v)
    # ------------------------------------------------------------ heap
    def new(s, st, kind, cls=None, data=None):
        r = s.fresh(); st.heap[r] = Obj(kind, cls, data, len(st.ev)); return ("ref", r)
    def inst(s, st, cls, **attrs): return s.new(st, "inst", cls, tuple(sorted(attrs.items())))
    def obj(s, st, v): return st.heap[v[1]] if v[0] == "ref" else None
    def setattr(s, st, v, name, val):
        o = s.obj(st, v)
        if o is not None and o.kind == "inst":
            d = dict(o.data); d[name] = val; st.heap[v[1]] = Obj("inst", o.cls, tuple(sorted(d.items())), o.at)
        st.emit("setattr", v, name, val)
    def deep(s, st, v, lvl=0):
        """structural snapshot of a value"""
        if v[0] == "ref" and lvl < 6:
            o = st.heap[v[1]]
            if o.kind == "inst": return ("inst", o.cls.name if o.cls else None, tuple((k, s.deep(st, x, lvl + 1)) for k, x in o.data))
            if o.kind in ("list", "set"): return (o.kind, tuple((x[0], s.deep(st, x[1], lvl + 1)) if x[0] == "item" else x for x in o.data))
            return (o.kind, o.data)
        if v[0] == "tup": return ("tup", tuple(s.deep(st, x, lvl + 1) for x in v[1]))
        return v
    def refs(s, st, v, seen=None):
        seen = set() if seen is None else seen
        if v[0] == "ref":
            if v[1] in seen: return seen
            seen.add(v[1]); o = st.heap[v[1]]
            if o.kind == "inst":
                for _, x in o.data: s.refs(st, x, seen)
            elif o.kind in ("list", "set"):
                for x in o.data:
                    if x[0] == "item": s.refs(st, x[1], seen)
        elif v[0] == "tup":
            for x in v[1]: s.refs(st, x, seen)
        return seen
    # ------------------------------------------------------------ calling
    def run(s, mod, cls, name, args=(), kwargs=None, st=None):
        """paths of one function from the given state: [(state, outcome)]"""
        st = st or St()
        m = s.P.mod(mod)
        if cls:
            c = m.classes.get(cls)
            if not c: raise Broken(f"class {cls} is not in {s.P.pkg}/{mod}.py")
            r = s.P.method(c, name)
            if not r: raise Broken(f"method {cls}.{name} is not in {s.P.pkg}/{mod}.py")
            owner, (node, kind) = r
            return s.body(st, owner.mod, owner, node, list(args), kwargs or {}, None)
        if name not in m.funcs: raise Broken(f"function {name} is not in {s.P.pkg}/{mod}.py")
        return s.body(st, m, None, m.funcs[name], list(args), kwargs or {}, None)
    @staticmethod
    def is_gen(node):
        todo = list(node.body) if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else []
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)): todo += list(ast.iter_child_nodes(n))
        return False
    def bind(s, st, mod, cls, node, args, kwargs, parent=None):
        a = node.args; env = {"__mod__": mod, "__cls__": cls, "__parent__": parent}
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(names, args): env[n] = v
        if len(args) > len(names):
            if a.vararg: env[a.vararg.arg] = ("tup", tuple(args[len(names):]))
            else: raise Broken(f"{node.name if hasattr(node,'name') else 'lambda'} called with too many arguments")
        elif a.vararg: env[a.vararg.arg] = ("tup", ())
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw: env[n] = kw.pop(n)
        dn = names[len(names) - len(a.defaults):]
        for n, d in list(zip(dn, a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env: env[n] = s.static(mod, cls, d)
        for n in names:
            if n not in env: env[n] = ("op", "param", n)
        if a.kwarg: env[a.kwarg.arg] = ("op", "kwargs", tuple(sorted(kw.items())))
        return env
    def static(s, mod, cls, expr):
        st = St(); st.frames.append({"__mod__": mod, "__cls__": cls, "__parent__": None}); st.cur = 0
        r = s.ev(st, expr)
        if len(r) != 1: return ("op", "const", ast.dump(expr))
        v = r[0][1]
        return v if v[0] != "ref" else ("op", "const", ast.dump(expr))
    def body(s, st, mod, cls, node, args, kwargs, yielder, parent=None):
        """executes the function in a new frame; returns [(state, outcome)] with the frame removed"""
        s.depth += 1
        if s.depth > s.MAXDEPTH: s.depth -= 1; raise Broken(f"call depth exceeded at {getattr(node, 'name', 'lambda')}")
        st = st.copy(); env = s.bind(st, mod, cls, node, args, kwargs, parent); env["__yield__"] = yielder
        back = st.cur; st.frames.append(env); at = len(st.frames) - 1; st.cur = at
        try:
            if isinstance(node, ast.Lambda): res = [(x, ("return", v)) for x, v in s.ev(st, node.body)]
            else: res = s.block(st, node.body)
        finally: s.depth -= 1
        out = []
        for x, o in res:
            x = x.copy() if x.frames is st.frames else x
            del x.frames[at:]; x.cur = back
            if o[0] == "next": o = ("return", ("c", None))
            out.append((x, o))
        return out
    def invoke(s, st, mod, cls, node, args, kwargs, parent=None):
        """a call inside an expression: [(state, value)]; generators become suspended objects"""
        if s.is_gen(node):
            g = s.fresh(); s.gens[g] = (mod, cls, node, list(args), dict(kwargs), parent); return [(st, ("gen", g))]
        if sum(1 for f in st.frames if f.get("__node__") is node) > 0: return [(st, ("op", "rec", getattr(node, "name", "lambda")) + tuple(args))]
        out = []
        for x, o in s.body(st, mod, cls, node, args, kwargs, None, parent):
            if o[0] == "return": out.append((x, o[1]))
            else: x.pending = o; out.append((x, ("c", None)))
        return out
    # ------------------------------------------------------------ statements
    def block(s, st, stmts):
        cur = [st]; done = []
        for n in stmts:
            nxt = []
            for x in cur:
                for y, o in s.stmt(x, n):
                    if o[0] == "next": nxt.append(y)
                    else: done.append((y, o))
            cur = nxt
            if len(cur) > s.MAXSTATES: raise Broken("too many paths")
            if not cur: break
        return done + [(x, ("next",)) for x in cur]
    def wrap(s, res, f=None):
        """turn [(state, value)] into statement outcomes"""
        out = []
        for x, v in res:
            if x.pending: o = x.pending; x = x.copy(); x.pending = None; out.append((x, o))
            else: out += f(x, v) if f else [(x, ("next",))]
        return out
    def stmt(s, st, n):
        t = type(n)
        if t is ast.Expr: return s.wrap(s.ev(st, n.value))
        if t is ast.Return:
            if n.value is None: return [(st, ("return", ("c", None)))]
            return s.wrap(s.ev(st, n.value), lambda x, v: [(x, ("return", v))])
        if t is ast.Assign: return s.wrap(s.ev(st, n.value), lambda x, v: s.assign_all(x, n.targets, v))
        if t is ast.AnnAssign:
            if n.value is None: return [(st, ("next",))]
            return s.wrap(s.ev(st, n.value), lambda x, v: s.assign_all(x, [n.target], v))
        if t is ast.AugAssign:
            src = ast.copy_location({ast.Name: lambda: ast.Name(n.target.id, ast.Load()), ast.Attribute: lambda: ast.Attribute(n.target.value, n.target.attr, ast.Load()), ast.Subscript: lambda: ast.Subscript(n.target.value, n.target.slice, ast.Load())}[type(n.target)](), n)
            def go(x, v):
                cur, rhs = v[1]
                o = s.obj(x, cur)
                if o is not None and o.kind == "list" and isinstance(n.op, ast.Add): return s.wrap(s.call_method(x, cur, "extend", [rhs], {}))
                if isinstance(n.op, ast.Add) and s.zeros(x, rhs) is not None and cur[0] in ("ref", "op"): return s.wrap(s.call_method(x, cur, "extend", [rhs], {}))
                if o is not None and o.kind == "set" and isinstance(n.op, ast.BitOr): return s.wrap(s.call_method(x, cur, "update", [rhs], {}))
                return s.wrap(s.binop(x, n.op, cur, rhs), lambda y, r: s.assign_all(y, [n.target], r))
            return s.wrap(s.evs(st, [src, n.value]), go)
        if t is ast.If: return s.wrap(s.cond(st, n.test), lambda x, b: s.block(x, n.body if b[1] else n.orelse))
        if t is ast.While: return s.loop(st, n, None)
        if t in (ast.For, ast.AsyncFor): return s.wrap(s.ev(st, n.iter), lambda x, v: s.for_over(x, n, v))
        if t is ast.Pass or t is ast.Global or t is ast.Nonlocal: return [(st, ("next",))]
        if t is ast.Break: return [(st, ("break",))]
        if t is ast.Continue: return [(st, ("continue",))]
        if t is ast.Raise:
            if n.exc is None: return [(st, ("raise", ("c", None)))]
            return s.wrap(s.ev(st, n.exc), lambda x, v: [(x, ("raise", v))])
        if t is ast.Assert:
            return s.wrap(s.cond(st, n.test), lambda x, b: [(x, ("next",))] if b[1] else [(x, ("raise", ("c", "AssertionError")))])
        if t is ast.With:
            def enter(x, i):
                if i == len(n.items): return s.block(x, n.body)
                it = n.items[i]
                def go(y, v):
                    if it.optional_vars is not None: return [z for q, o in s.assign_all(y, [it.optional_vars], v) for z in (enter(q, i + 1) if o[0] == "next" else [(q, o)])]
                    return enter(y, i + 1)
                return s.wrap(s.ev(x, it.context_expr), go)
            return enter(st, 0)
        if t is ast.Try:
            out = []
            for x, o in s.block(st, n.body):
                if o[0] == "raise" and n.handlers:
                    for h in n.handlers:
                        y = x.copy()
                        if h.name: y.env[h.name] = o[1]
                        out += s.block(y, h.body)
                elif o[0] == "next" and n.orelse: out += s.block(x, n.orelse)
                else: out.append((x, o))
            # anything in the body may raise: each handler from the state at entry, with what the body changes forgotten
            if n.handlers:
                for h in n.handlers:
                    y = st.copy(); y.emit("except", n.lineno)
                    if h.name: y.env[h.name] = ("op", "exc", s.fresh())
                    for nm in s.assigned(n.body):
                        if nm in y.env: y.env[nm] = ("op", "maybe", nm, s.fresh())
                    out += s.block(y, h.body)
            if n.finalbody:
                res = []
                for x, o in out:
                    for y, p in s.block(x, n.finalbody): res.append((y, o if p[0] == "next" else p))
                out = res
            return out
        if t is ast.Delete:
            out = [(st, ("next",))]
            for tg in n.targets:
                nx = []
                for x, o in out:
                    if isinstance(tg, ast.Name): x = x.copy(); x.env.pop(tg.id, None); nx.append((x, o))
                    elif isinstance(tg, ast.Subscript):
                        def dele(y, v):
                            c, k = v[1]; y = y.copy(); ob = s.obj(y, c)
                            if ob is not None and ob.kind == "list" and num(k) == -1: return s.wrap(s.call_method(y, c, "pop", [], {}))
                            s.forget(y, c); y.emit("mut", c, "del", (k,)); return [(y, ("next",))]
                        nx += s.wrap(s.evs(x, [tg.value, tg.slice if not isinstance(tg.slice, ast.Slice) else ast.Constant(None)]), dele)
                    else: nx.append((x, o))
                out = nx
            return out
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            x = st.copy(); g = s.fresh(); s.gens[g] = n; x.env[n.name] = ("closure", g, x.cur); return [(x, ("next",))]
        if t in (ast.Import, ast.ImportFrom):
            x = st.copy()
            for a in n.names: x.env[a.asname or a.name.split(".")[0]] = ("ext", a.name)
            return [(x, ("next",))]
        if t is ast.ClassDef: return [(st, ("next",))]
        raise Broken(f"statement {t.__name__} at line {n.lineno} is not supported")
    def assigned(s, stmts):
        r = set()
        for b in stmts:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): r.add(n.id)
        return r
    def assign_all(s, st, targets, v):
        out = [st.copy()]
        for t in targets:
            nxt = []
            for x in out: nxt += s.assign(x, t, v)
            out = nxt
        return s.wrap([(x, v) for x in out])
    def assign(s, st, t, v):
        """[states]"""
        if isinstance(t, ast.Name): st.env[t.id] = v; return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star: raise Broken("starred assignment is not supported")
            items = s.unpack(st, v, len(t.elts)); out = [st]
            for e, x in zip(t.elts, items): out = [z for y in out for z in s.assign(y, e, x)]
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for x, o in s.ev(st, t.value): x = x.copy(); s.setattr(x, o, t.attr, v); out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for x, o in s.ev(st, t.value): x = x.copy(); s.forget(x, o); x.emit("mut", o, "setslice", (v,)); out.append(x)
                return out
            for x, tv in s.evs(st, [t.value, t.slice]):
                o, k = tv[1]; x = x.copy(); s.setitem(x, o, k, v); out.append(x)
            return out
        raise Broken(f"assignment target {type(t).__name__}")
    def unpack(s, st, v, n):
        if v[0] == "tup":
            if len(v[1]) != n: raise Broken("tuple of the wrong length unpacked")
            return v[1]
        o = s.obj(st, v)
        if o is not None and o.kind == "list" and len(o.data) == n and all(x[0] == "item" for x in o.data): return [x[1] for x in o.data]
        return [s.index_term(v, I(i)) for i in range(n)]
    def index_term(s, v, i):
        if v[0] == "tup" and num(i) is not None and -len(v[1]) <= num(i) < len(v[1]): return v[1][num(i)]
        return ("op", "item", v, i)
    def setitem(s, st, o, k, v):
        ob = s.obj(st, o)
        if ob is not None:
            if ob.kind == "dict": st.heap[o[1]] = Obj("dict", ob.cls, (ob.data[0], ob.data[1] + ((k, v),)), ob.at)
            elif ob.kind == "bytes": st.heap[o[1]] = Obj("bytes", ob.cls, (ob.data[0], ob.data[1] + ((k, v),), ob.data[2]), ob.at)
            elif ob.kind == "list":
                i = num(k)
                if i is not None and all(x[0] == "item" for x in ob.data) and -len(ob.data) <= i < len(ob.data):
                    d = list(ob.data); d[i] = ("item", v); st.heap[o[1]] = Obj("list", ob.cls, tuple(d), ob.at)
                else: s.forget(st, o)
        st.emit("setitem", o, k, v)
    def forget(s, st, v):
        ob = s.obj(st, v)
        if ob is None: return
        sym = ("op", "unk", s.fresh())
        if ob.kind in ("list", "set"): st.heap[v[1]] = Obj(ob.kind, ob.cls, (("unk", sym),), ob.at)
        elif ob.kind == "dict": st.heap[v[1]] = Obj("dict", ob.cls, (sym, ()), ob.at)
        elif ob.kind == "bytes": st.heap[v[1]] = Obj("bytes", ob.cls, (("len", sym), (), sym), ob.at)
    # ------------------------------------------------------------ loops
    def for_over(s, st, n, it, emit=None):
        """for statement over an abstract iterable"""
        body = lambda x: s.block(x, n.body)
        def step(x, v):
            r = []
            for y in s.assign(x.copy(), n.target, v):
                if y.pending: o = y.pending; y.pending = None; r.append((y, o))
                else: r += body(y)
            return r
        return s.iterate(st, it, step, n)
    def flat(s, st, it):
        """normalise an iterable value"""
        if it[0] == "ref":
            o = st.heap[it[1]]
            if o.kind in ("list", "set"):
                if all(x[0] == "item" for x in o.data): return ("tup", tuple(x[1] for x in o.data)) if o.kind == "list" or len(o.data) < 2 else ("seq", o.data)
                if len(o.data) == 1: return s.flat(st, o.data[0][1])
                return ("seq", o.data)
            if o.kind == "dict":
                if o.data[0] is None: return ("op", "keysof", it, o.data[1]) if o.data[1] else ("tup", ())
                return ("op", "keys", o.data[0]) if not o.data[1] else ("op", "keysof", o.data)
            if o.kind == "bytes": return ("view", o.data[2] if o.data[2] else ("op", "buf", it[1]), I(0), o.data[0])
            m = s.P.method(o.cls, "__iter__") if o.cls else None
            if m: return ("iterof", it)
        if it[0] == "c" and isinstance(it[1], (str, bytes)) and len(it[1]) <= 64:
            return ("tup", tuple(I(b) if isinstance(it[1], bytes) else ("c", b) for b in it[1]))
        return it
    def elem(s, st, it, k):
        """(element at index k, condition that there is one, constant trip count or None)"""
        it = s.flat(st, it)
        t = it[0]
        if t == "range":
            a, b, sp = it[1:]; n = num(sp)
            x = add(a, scale(k, n)) if n is not None else add(a, mul(k, sp))
            cnt = num(sub(b, a))
            c = (max(0, -(-cnt // n)) if n > 0 else max(0, -((-cnt) // -n) if False else (cnt // n + (1 if cnt % n else 0)))) if cnt is not None and n else None
            if n is not None and n < 0: return x, lt(b, x), c
            return x, lt(x, b), c
        if t == "view": return ("rd", it[1], add(it[2], k), 1, 0), lt(add(it[2], k), it[3]), num(sub(it[3], it[2]))
        if t == "enum":
            x, c, n = s.elem(st, it[1], k); return ("tup", (add(k, it[2]), x)), c, n
        if t == "zip":
            xs = [s.elem(st, y, k) for y in it[1]]; c = True
            for _, cc, _ in xs: c = cc if c is True else c if cc is True else ("and", c, cc)
            ns = [n for _, _, n in xs if n is not None]
            return ("tup", tuple(x for x, _, _ in xs)), c, (min(ns) if len(ns) == len(xs) else None)
        if t == "ziplong":
            q = tuple(s.flat(st, y) for y in it[1])
            return ("tup", tuple(("op", "elemor", y, k, it[2]) for y in q)), ("more", ("ziplong", q, it[2]), k), None
        if t == "mapped":
            kk = ("k", it[1]); return s.sub_v(it[2], kk, k), s.sub_c(it[3], kk, k), None
        if t == "items":
            b = it[1]; return ("tup", (("op", "key", b, k), ("op", "val", b, k))), ("more", it, k), None
        return ("op", "elem", it, k), ("more", it, k), None
    def iterate(s, st, it, step, n):
        it = s.flat(st, it)
        if it[0] == "tup" and len(it[1]) <= 64:
            cur, done = [st], []
            for v in it[1]:
                nxt = []
                for x in cur:
                    for y, o in step(x, v):
                        if o[0] in ("next", "continue"): nxt.append(y)
                        elif o[0] == "break": done.append((y, ("next",)))
                        else: done.append((y, o))
                cur = nxt
            for x in cur: done += s.block(x, getattr(n, "orelse", None) or []) if getattr(n, "orelse", None) else [(x, ("next",))]
            return done
        if it[0] in ("enum", "zip") and any(y[0] in ("gen", "genexp", "iterof") for y in (s.flat(st, q) for q in (it[1] if it[0] == "zip" else (it[1],)))):
            # enumerate over a generator: count in a hidden variable
            if it[0] == "enum":
                h = f"#e{s.fresh()}"; x = st.copy(); f = x.cur; x.frames[f][h] = it[2]
                def st2(y, v):
                    c = y.frames[f][h]; y = y.copy(); y.frames[f][h] = add(c, I(1)); return step(y, ("tup", (c, v)))
                return s.iterate(x, it[1], st2, n)
            raise Broken("zip over a generator is not supported")
        if it[0] in ("gen", "genexp", "iterof"):
            f = st.cur
            def yielder(x, v):
                x = x.copy(); back = x.cur; x.cur = f; out = []
                for y, o in step(x, v):
                    y = y.copy() if y is x else y; y.cur = back
                    if o[0] not in ("next", "continue"): y.pending = ("unwind", f, o)
                    out.append(y)
                return out
            res = s.run_gen(st, it, yielder); out = []
            for x, o in res:
                x.cur = f
                if o[0] == "unwind" and o[1] == f: o = o[2]; out.append((x, ("next",) if o[0] == "break" else o))
                elif o[0] in ("return", "next"): out += s.block(x, n.orelse) if getattr(n, "orelse", None) else [(x, ("next",))]
                else: out.append((x, o))
            return out
        return s.loop(st, n, (it, step))
    def run_gen(s, st, g, yielder):
        if g[0] == "iterof":
            o = st.heap[g[1][1]]; owner, (node, _) = s.P.method(o.cls, "__iter__")
            if s.is_gen(node): return s.body(st, owner.mod, owner, node, [g[1]], {}, yielder)
            out = []
            for x, v in s.invoke(st, owner.mod, owner, node, [g[1]], {}):
                out += s.run_gen(x, v, yielder) if v[0] in ("gen", "genexp", "iterof") else s.drain(x, v, yielder)
            return out
        if g[0] == "genexp":
            node, fr = s.gens[g[1]]
            return s.comp_run(st, node, fr, lambda x: [y for z, v in s.ev(x, node.elt) for y in yielder(z, v)])
        mod, cls, node, args, kw, parent = s.gens[g[1]]
        return s.body(st, mod, cls, node, args, kw, yielder, parent)
    def drain(s, st, v, yielder):
        return s.iterate(st, v, lambda x, e: s.wrap([(y, e) for y in yielder(x, e)]), ast.Pass(lineno=0, col_offset=0))
    def comp_run(s, st, node, fr, emit):
        """comprehension: nested loops in a new frame over the defining frame"""
        x = st.copy(); back = x.cur; x.frames.append({"__mod__": x.frames[fr]["__mod__"], "__cls__": x.frames[fr]["__cls__"], "__parent__": fr, "__yield__": None}); at = len(x.frames) - 1; x.cur = at
        def lvl(y, i):
            if i == len(node.generators): return s.wrap([(z, None) for z in emit(y)])
            g = node.generators[i]
            def step(z, v):
                r = []
                for q in s.assign(z.copy(), g.target, v):
                    def filt(w, j):
                        if j == len(g.ifs): return lvl(w, i + 1)
                        return s.wrap(s.cond(w, g.ifs[j]), lambda e, b: filt(e, j + 1) if b[1] else [(e, ("next",))])
                    r += filt(q, 0)
                return r
            return s.wrap(s.ev(y, g.iter), lambda z, it: s.iterate(z, it, step, g.iter))
        out = []
        for y, o in lvl(x, 0):
            y = y.copy(); del y.frames[at:]; y.cur = back; out.append((y, ("return", ("c", None)) if o[0] == "next" else o))
        return out
    def vars(s, st):
        d = {}
        for i, f in enumerate(st.frames):
            for k, v in f.items():
                if not k.startswith("__"): d[("v", i, k)] = v
        for r, o in st.heap.items(): d[("h", r)] = o
        return d
    def widen(s, key, L, a, ends, kat):
        """generic value of a cell that starts as a and ends an iteration as one of ends (given it started as gen)"""
        return ("op", "lv", L, key)
    def generic(s, key, L, entry, heads, ends):
        """next approximation of the value at the start of an arbitrary iteration"""
        lv = ("op", "lv", L, key)
        if isinstance(entry, Obj):
            if entry.kind == "inst":
                d0 = dict(entry.data); es = [dict(o.data) for o in ends]; h = dict(heads.data)
                names = set(d0) | {x for e in es for x in e}
                return Obj("inst", entry.cls, tuple(sorted((n, s.generic(key + (n,), L, d0[n], h.get(n, d0[n]), [e.get(n, d0[n]) for e in es]) if n in d0 else ("op", "lv", L, key + (n,))) for n in names)), entry.at)
            sym = lv
            if entry.kind in ("list", "set"): return Obj(entry.kind, entry.cls, (("unk", sym),), entry.at)
            if entry.kind == "dict": return Obj("dict", entry.cls, (sym, ()), entry.at)
            if entry.kind == "bytes":
                ln = s.generic(key + ("len",), L, entry.data[0], heads.data[0], [e.data[0] for e in ends])
                return Obj("bytes", entry.cls, (ln, (), sym), entry.at)
        if all(e == heads for e in ends) and heads == entry: return entry
        if entry[0] == "view" and all(e[0] == "view" and e[1] == entry[1] for e in ends) and heads[0] == "view":
            return ("view", entry[1], s.generic(key + ("lo",), L, entry[2], heads[2], [e[2] for e in ends]), s.generic(key + ("hi",), L, entry[3], heads[3], [e[3] for e in ends]))
        if entry[0] == "tup" and all(e[0] == "tup" and len(e[1]) == len(entry[1]) for e in ends) and heads[0] == "tup":
            return ("tup", tuple(s.generic(key + (i,), L, entry[1][i], heads[1][i], [e[1][i] for e in ends]) for i in range(len(entry[1]))))
        if all(s.intish(x) for x in (entry, heads, *ends)):
            for c in range(1, 9):
                if all(e == shr(heads, I(c)) for e in ends) and ends and num(heads) is None: return ("op", "shr", entry, scale(("k", L), c))
            ds = {sub(e, heads) for e in ends}
            if len(ds) == 1:
                c = num(next(iter(ds)))
                if c is not None: return add(entry, scale(("k", L), c)) if c else entry if heads == entry else lv
        return lv
    @staticmethod
    def intish(v): return v[0] in ("i", "rd", "bits", "len", "k", "K", "op", "nn", "attr")
    def loop(s, st, n, over):
        """one generic iteration; over = (iterable, step) for a for loop, None for a while loop"""
        L = s.fresh(); line = getattr(n, "lineno", 0)
        k = ("k", L)
        entry = s.vars(st)
        head = dict(entry); count = None
        opaque = set()
        for rounds in range(12):
            h = s.put(st, head); base = h
            rec = Loop(L, line); rec.head = h; rec.entry = st; rec.iter = over[0] if over else None
            paths, exits = [], []
            if over:
                v, c, count = s.elem(h, over[0], k); rec.cond = c
                for x, b in s.fork(h, c):
                    if b: paths += [(x, o) for x, o in over[1](x.copy(), v)]
                    else: exits.append((x, None))
            else:
                rec.cond = n.test
                for x, b in s.cond(h, n.test):
                    if x.pending: o = x.pending; x = x.copy(); x.pending = None; paths.append((x, o)); continue
                    if b[1]: paths += s.block(x, n.body)
                    else: exits.append((x, None))
            cont = [x for x, o in paths if o[0] in ("next", "continue")]
            new = dict(head)
            ends = [s.vars(x) for x in cont]
            for key in head:
                if any(key not in e for e in ends): 
                    if key[0] == "v": new[key] = ("op", "lv", L, key)
                    continue
                es = [e[key] for e in ends]
                if key in opaque: continue
                if any(e != head[key] for e in es):
                    g = s.generic(key, L, entry[key], head[key], es)
                    if rounds >= 2 and g != head[key] and not isinstance(g, Obj):
                        g = ("op", "lv", L, key) if g[0] != "view" else ("view", g[1], g[2] if g[2] == head[key][2] else ("op", "lv", L, key + ("lo",)), g[3])
                        if rounds >= 5: g = ("op", "lv", L, key); opaque.add(key)
                    if isinstance(g, Obj) and rounds >= 5 and g.kind == "inst":
                        hd = dict(head[key].data); g = Obj("inst", g.cls, tuple((a, v if hd.get(a) == v else ("op", "lv", L, key + (a,))) for a, v in g.data), g.at)
                    new[key] = g
            # variables first set inside the loop are unset at the head of the first iteration only; they are rebuilt by the body
            if new == head: break
            head = new
        else: raise Broken(f"loop at line {line}: no stable summary")
        rec.paths = [PathRec(rec, x, o) for x, o in paths]
        rec.exits = [x for x, _ in exits]
        out = []
        K = ("K", L) if count is None else I(count)
        mapped = {}
        if over and cont and len(cont) == len(paths):
            for key, o in entry.items():
                if key[0] == "h" and o.kind == "list" and head[key] != o:
                    vs = {x.heap[key[1]].data[len(head[key].data):] for x in cont if x.heap[key[1]].data[:len(head[key].data)] == head[key].data}
                    if len(vs) == 1 and all(x.heap[key[1]].data[:len(head[key].data)] == head[key].data for x in cont):
                        v = next(iter(vs))
                        if len(v) == 1 and v[0][0] == "item" and "'ref'" not in repr(v) and f"'lv', {L}," not in repr(v): mapped[key[1]] = over[0] if over[0][0] == "range" and v[0][1] == s.elem(h, over[0], k)[0] else ("mapped", L, v[0][1], rec.cond)
        s.loops[L] = rec
        if cont and len(cont) == len([o for _, o in paths if o[0] not in ("return", "raise")]):
            for key, o in entry.items():
                if key[0] == "h" and o.kind == "list" and head[key] != o and key[1] not in mapped:
                    hd = head[key].data; es = [x.heap[key[1]].data for x in cont]
                    if all(e[:len(hd)] == hd and all(z[0] == "item" for z in e[len(hd):]) for e in es) and all(x.heap[key[1]].data == hd for x, _ in exits): mapped[key[1]] = ("loopadd", L, key[1])
        for x, _ in exits:
            y = s.subst(x, k, K); y.ev = base.ev + (("loop", rec),)
            y.facts = x.facts if not over else base.facts
            if over and not (rec.cond in (True, False)) : y.facts = tuple((s.sub_c(f, k, K), b) for f, b in x.facts)
            elif not over: y.facts = tuple((s.sub_c(f, k, K), b) for f, b in x.facts)
            for r, mv in mapped.items(): y.heap[r] = Obj("list", y.heap[r].cls, entry[("h", r)].data + (("many", mv),), y.heap[r].at)
            out += s.block(y, n.orelse) if getattr(n, "orelse", None) else [(y, ("next",))]
        if over and count is not None and count > 0 and not exits:
            y = s.subst(base, k, K); y.ev = base.ev + (("loop", rec),); out.append((y, ("next",)))
        for x, o in paths:
            if o[0] in ("next", "continue"): continue
            y = x.copy(); y.ev = base.ev + (("loop", rec), ("iter", rec)) + x.ev[len(base.ev):]
            out.append((y, ("next",) if o[0] == "break" else o))
        return out
    def put(s, st, vals):
        x = st.copy()
        for key, v in vals.items():
            if key[0] == "v": x.frames[key[1]][key[2]] = v
            else: x.heap[key[1]] = v
        return x
    def sub_v(s, v, a, b):
        if v == a: return b
        if not isinstance(v, tuple): return v
        if v and v[0] == "i":
            r = I(v[1])
            for x, c in v[2]: r = add(r, scale(s.sub_v(x, a, b), c))
            return r
        if not s.has(v, a): return v
        return tuple(s.sub_v(x, a, b) for x in v)
    def has(s, v, a):
        if v == a: return True
        return isinstance(v, tuple) and any(s.has(x, a) for x in v)
    def sub_c(s, c, a, b):
        if not s.has(c, a): return c
        if c[0] in ("le0", "eq0"): return (c[0], s.sub_v(c[1], a, b))
        return tuple(s.sub_v(x, a, b) for x in c)
    def subst(s, st, a, b):
        x = st.copy()
        for f in x.frames:
            for k, v in f.items():
                if not k.startswith("__"): f[k] = s.sub_v(v, a, b)
        for r, o in x.heap.items():
            if s.has(o.data, a): x.heap[r] = Obj(o.kind, o.cls, s.sub_v(o.data, a, b), o.at)
        return x
    # ------------------------------------------------------------ expressions
    def cond(s, st, n):
        """[(state, ('bool', True|False))]"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(x, ("bool", not b[1])) for x, b in s.cond(st, n.operand)]
        if isinstance(n, ast.BoolOp):
            cur, out = [st], []
            isand = isinstance(n.op, ast.And)
            for i, e in enumerate(n.values):
                nxt = []
                for x in cur:
                    for y, b in s.cond(x, e):
                        if y.pending: out.append((y, b))
                        elif b[1] == isand and i < len(n.values) - 1: nxt.append(y)
                        else: out.append((y, b))
                cur = nxt
            return out
        out = []
        for x, v in s.ev(st, n):
            if x.pending: out.append((x, ("bool", False))); continue
            out += [(y, ("bool", b)) for y, b in s.fork(x, s.truth(x, v))]
        return out
    def evs(s, st, nodes):
        cur = [(st, ())]
        for n in nodes:
            nxt = []
            for x, vs in cur:
                if x.pending: nxt.append((x, vs + (("c", None),))); continue
                if isinstance(n, ast.Starred):
                    for y, v in s.ev(x, n.value):
                        w = s.flat(y, v)
                        if w[0] != "tup": raise Broken("starred argument of unknown length")
                        nxt.append((y, vs + w[1]))
                else: nxt += [(y, vs + (v,)) for y, v in s.ev(x, n)]
            cur = nxt
        return [(x, ("tup", vs)) for x, vs in cur]
    def then(s, res, f):
        out = []
        for x, v in res: out += [(x, ("c", None))] if x.pending else f(x, v)
        return out
    def lookup(s, st, name):
        i = st.cur
        while i is not None:
            f = st.frames[i]
            if name in f and not name.startswith("__"): return f[name]
            i = f["__parent__"]
        return s.glob(st.env["__mod__"], name)
    def glob(s, m, name):
        r = s.P.resolve(m, name)
        if r is None: return ("ext", name)
        if r[0] == "class": return ("cls", r[1].mod.name, r[1].name)
        if r[0] == "func": return ("fn", r[1].name, None, name if name in r[1].funcs else m.imports[name][2], None)
        if r[0] == "const": return ("lazy", r[1], None, r[2]) if isinstance(r[2], (ast.Dict, ast.List, ast.Set)) else s.static(r[1], None, r[2])
        if r[0] == "pkgmod": return ("pkgmod", r[1])
        return ("ext", r[1])
    def cls(s, v): return s.P.mod(v[1]).classes[v[2]]
    def ev(s, st, n):
        t = type(n)
        if t is ast.Constant:
            v = n.value
            return [(st, I(v) if isinstance(v, int) and not isinstance(v, bool) else ("c", v))]
        if t is ast.Name:
            v = s.lookup(st, n.id)
            if v[0] == "lazy":
                x = st.copy(); back = x.cur; x.frames.append({"__mod__": v[1], "__cls__": v[2], "__parent__": None, "__yield__": None}); x.cur = at = len(x.frames) - 1
                out = []
                for y, r in s.ev(x, v[3]): y = y.copy(); del y.frames[at:]; y.cur = back; out.append((y, r))
                return out
            return [(st, v)]
        if t is ast.Tuple: return s.evs(st, n.elts)
        if t is ast.List or t is ast.Set:
            if any(isinstance(e, ast.Starred) for e in n.elts):
                out = [(st, ())]
                for e in n.elts:
                    nx = []
                    for x, segs in out:
                        for y, v in s.ev(x, e.value if isinstance(e, ast.Starred) else e): nx.append((y, segs + (s.segs(y, v) if isinstance(e, ast.Starred) else (("item", v),))))
                    out = nx
                res = []
                for x, segs in out: x = x.copy(); res.append((x, s.new(x, "list" if t is ast.List else "set", None, segs)))
                return res
            def mklist(x, v):
                x = x.copy(); return [(x, s.new(x, "list" if t is ast.List else "set", None, tuple(("item", e) for e in v[1])))]
            return s.then(s.evs(st, n.elts), mklist)
        if t is ast.Dict:
            def mkd(x, v):
                x = x.copy(); k = len(n.keys); return [(x, s.new(x, "dict", None, (None, tuple(zip(v[1][:k], v[1][k:])))))]
            if any(k is None for k in n.keys): return [(st, ("op", "dict", s.fresh()))]
            return s.then(s.evs(st, list(n.keys) + list(n.values)), mkd)
        if t is ast.Attribute: return s.then(s.ev(st, n.value), lambda x, v: s.getattr(x, v, n.attr))
        if t is ast.Subscript:
            if isinstance(n.slice, ast.Slice):
                sl = n.slice
                return s.then(s.evs(st, [n.value] + [e if e is not None else ast.Constant(None) for e in (sl.lower, sl.upper, sl.step)]), lambda x, v: s.slice(x, *v[1]))
            return s.then(s.evs(st, [n.value, n.slice]), lambda x, v: s.index(x, *v[1]))
        if t is ast.BinOp: return s.then(s.evs(st, [n.left, n.right]), lambda x, v: s.binop(x, n.op, *v[1]))
        if t is ast.UnaryOp:
            if isinstance(n.op, ast.Not):
                return s.then(s.ev(st, n.operand), lambda x, v: [(x, ("bool", neg(s.truth(x, v)))) if s.truth(x, v) not in (True, False) else (x, ("c", not s.truth(x, v)))])
            if isinstance(n.op, ast.USub): return s.then(s.ev(st, n.operand), lambda x, v: [(x, scale(v, -1))])
            if isinstance(n.op, ast.Invert): return s.then(s.ev(st, n.operand), lambda x, v: [(x, I(~num(v)) if num(v) is not None else sub(I(-1), v))])
            return s.ev(st, n.operand)
        if t is ast.BoolOp:
            def go(x, i):
                def f(y, v):
                    if i == len(n.values) - 1: return [(y, v)]
                    out = []
                    for z, b in s.fork(y, s.truth(y, v)):
                        if b == isinstance(n.op, ast.And): out += go(z, i + 1)
                        else: out.append((z, ("c", b) if v[0] == "bool" else v))
                    return out
                return s.then(s.ev(x, n.values[i]), f)
            return go(st, 0)
        if t is ast.Compare:
            if len(n.ops) == 1:
                return s.then(s.evs(st, [n.left, n.comparators[0]]), lambda x, v: s.boolval(s.compare(x, n.ops[0], *v[1])))
            def chain(x, v):
                vs = v[1]; c = True
                out = [(x, True)]
                for i, op in enumerate(n.ops):
                    nxt = []
                    for y, b in out:
                        if not b: nxt.append((y, b)); continue
                        for z, r in s.compare(y, op, vs[i], vs[i + 1]): nxt += s.fork(z, r)
                    out = nxt
                return [(y, ("c", b)) for y, b in out]
            return s.then(s.evs(st, [n.left] + n.comparators), chain)
        if t is ast.IfExp:
            out = []
            for x, b in s.cond(st, n.test):
                if x.pending: out.append((x, ("c", None)))
                else: out += s.ev(x, n.body if b[1] else n.orelse)
            return out
        if t is ast.Call: return s.call(st, n)
        if t in (ast.ListComp, ast.SetComp): return s.comp(st, n, "list" if t is ast.ListComp else "set")
        if t is ast.DictComp: return s.comp(st, n, "dict")
        if t is ast.GeneratorExp:
            g = s.fresh(); s.gens[g] = (n, st.cur); return [(st, ("genexp", g))]
        if t is ast.Yield:
            def y(x, v):
                h = x.env.get("__yield__")
                if h is None: x = x.copy(); x.emit("yield", v, s.deep(x, v), n.lineno); return [(x, ("c", None))]
                return [(z, ("c", None)) for z in h(x, v)]
            return s.then(s.ev(st, n.value) if n.value else [(st, ("c", None))], y)
        if t is ast.YieldFrom:
            def yf(x, v):
                h = x.env.get("__yield__")
                if h is None:
                    def h(z, e): z = z.copy(); z.emit("yield", e, s.deep(z, e), n.lineno); return [z]
                v = s.flat(x, v)
                if v[0] in ("gen", "genexp", "iterof"): res = s.run_gen(x, v, h)
                else: res = s.drain(x, v, h)
                out = []
                for z, o in res:
                    if o[0] not in ("next", "return"): z.pending = o
                    out.append((z, o[1] if o[0] == "return" else ("c", None)))
                return out
            return s.then(s.ev(st, n.value), yf)
        if t is ast.NamedExpr:
            def ne(x, v): x = x.copy(); x.env[n.target.id] = v; return [(x, v)]
            return s.then(s.ev(st, n.value), ne)
        if t is ast.JoinedStr:
            vals = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
            return s.then(s.evs(st, vals), lambda x, v: [(x, ("op", "fstr") + v[1])])
        if t is ast.Lambda:
            g = s.fresh(); s.gens[g] = n; return [(st, ("closure", g, st.cur))]
        if t is ast.Starred: return s.ev(st, n.value)
        if t is ast.Slice: return [(st, ("op", "slice"))]
        if t is ast.Await: return s.ev(st, n.value)
        raise Broken(f"expression {t.__name__} at line {getattr(n, 'lineno', 0)} is not supported")
    def boolval(s, res): return [(x, ("c", c) if c in (True, False) else ("bool", c)) for x, c in res]
    def comp(s, st, n, kind):
        x = st.copy(); fr = x.cur
        ref = s.new(x, kind, None, () if kind != "dict" else (None, ()))
        def emit(y):
            out = []
            if kind == "dict":
                for z, v in s.evs(y, [n.key, n.value]): z = z.copy(); s.setitem(z, ref, *v[1]); out.append(z)
            else:
                for z, v in s.ev(y, n.elt):
                    out += [q for q, _ in s.call_method(z, ref, "append" if kind == "list" else "add", [v], {})]
            return out
        out = []
        for y, o in s.comp_run(x, n, fr, emit):
            if o[0] not in ("return", "next"): y.pending = o
            out.append((y, ref))
        return out
    def binop(s, st, op, a, b):
        t = type(op)
        if a[0] == "bool" and t in (ast.BitAnd, ast.BitOr): return [(st, ("bool", ("and" if t is ast.BitAnd else "or", a[1], s.truth(st, b))))]
        oa, ob = s.obj(st, a), s.obj(st, b)
        if t is ast.Add:
            if a[0] == "tup" and b[0] == "tup": return [(st, ("tup", a[1] + b[1]))]
            if a[0] == "c" and b[0] == "c" and isinstance(a[1], (str, bytes)): return [(st, ("c", a[1] + b[1]))]
            if oa is not None and oa.kind == "list":
                x = st.copy(); return [(x, s.new(x, "list", None, oa.data + s.segs(st, b)))]
            return [(st, add(a, b))]
        if t is ast.BitOr and oa is not None and oa.kind == "set":
            x = st.copy(); return [(x, s.new(x, "set", None, oa.data + s.segs(st, b)))]
        if t is ast.Mult and (a[0] == "c" or oa is not None or (b[0] == "c" and isinstance(b[1], (str, bytes)))):
            if a[0] == "c" and a[1] in (b"\0",): x = st.copy(); return [(x, s.new(x, "bytes", None, (b, (), None)))]
            return [(st, ("op", "repeat", s.deep(st, a), b))]
        if t is ast.Div and a[0] in ("ext", "op"): return [(st, ("op", "div", a, b))]
        f = {ast.Sub: sub, ast.Mult: mul, ast.FloorDiv: fdiv, ast.Mod: mod, ast.LShift: shl, ast.RShift: shr, ast.BitAnd: band, ast.BitOr: bor}.get(t)
        if f and oa is None and ob is None and a[0] != "c" and b[0] != "c": return [(st, f(a, b))]
        if f and (num(a) is not None or num(b) is not None) and oa is None and ob is None: return [(st, f(a, b))]
        if t is ast.Pow and num(a) == 2: return [(st, shl(I(1), b))]
        if t is ast.Pow and num(a) is not None and num(b) is not None: return [(st, I(num(a) ** num(b)))]
        return [(st, ("op", t.__name__, s.deep(st, a), s.deep(st, b)))]
    def compare(s, st, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq):
            c = s.equal(st, a, b, t in (ast.Is, ast.IsNot)); return [(st, c if t in (ast.Is, ast.Eq) else neg(c))]
        if t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            if s.obj(st, a) is not None or s.obj(st, b) is not None or a[0] == "tup" or b[0] == "tup": return [(st, ("cmp", t.__name__, s.deep(st, a), s.deep(st, b)))]
            return [(st, {ast.Lt: lt(a, b), ast.LtE: le(a, b), ast.Gt: lt(b, a), ast.GtE: le(b, a)}[t])]
        out = []
        for x, c in s.contains(st, b, a): out.append((x, c if t is ast.In else neg(c)))
        return out
    def equal(s, st, a, b, ident=False):
        if a == b and a[0] != "op": return True
        for x, y in ((a, b), (b, a)):
            if x == ("c", None):
                if y[0] in ("i", "tup", "view", "rec", "cls", "rd", "bits", "len", "k", "range", "bool", "ref", "gen", "closure", "fn"): return False
                if y[0] == "c": return y[1] is None
                return ("isnone", y)
        if a[0] == "c" and b[0] == "c": return a[1] == b[1]
        if a[0] == "tup" and b[0] == "tup":
            if len(a[1]) != len(b[1]): return False
            c = True
            for x, y in zip(a[1], b[1]):
                d = s.equal(st, x, y)
                if d is False: return False
                if d is not True: c = d if c is True else ("and", c, d)
            return c
        if s.obj(st, a) is not None or s.obj(st, b) is not None:
            return a == b if ident else ("eq", s.deep(st, a), s.deep(st, b))
        if a[0] == "cls" and b[0] == "cls": return a == b
        if a[0] == "c" or b[0] == "c":
            if isinstance(a[1], bool) or isinstance(b[1], bool):
                k, v = (a[1], b) if a[0] == "c" and isinstance(a[1], bool) else (b[1], a)
                if v[0] == "bool": return v[1] if k else neg(v[1])
            return ("eq",) + tuple(sorted((a, b), key=repr))
        return eqc(a, b)
    def contains(s, st, box, x):
        """[(state, cond)] for x in box"""
        o = s.obj(st, box)
        if o is not None and o.kind in ("set", "list"):
            unk = tuple(q for q in o.data if q[0] != "item")
            cs = []
            for q in o.data:
                if q[0] == "item":
                    c = s.equal(st, x, q[1])
                    if c is not True and c is not False:
                        r = s.decide(st, c); c = c if r is None else r
                    if c is True: return [(st, True)]
                    if c is not False: cs.append(c)
            r = ("in", x, unk) if unk else False
            for c in cs: r = c if r is False else ("or", c, r)
            return [(st, r)]
        if o is not None and o.kind == "dict":
            b, w = o.data; cs = []
            for k, _ in w:
                c = s.equal(st, x, k)
                if c is not True and c is not False:
                    r = s.decide(st, c); c = c if r is None else r
                if c is True: return [(st, True)]
                if c is not False: cs.append(c)
            r = ("in", x, b) if b is not None else False
            for c in cs: r = c if r is False else ("or", c, r)
            return [(st, r)]
        if box[0] == "tup":
            r = False
            for y in box[1]:
                c = s.equal(st, x, y)
                if c is True: return [(st, True)]
                if c is not False: r = c if r is False else ("or", r, c)
            return [(st, r)]
        if box[0] == "range" and num(box[3]) == 1: return [(st, ("and", le(box[1], x), lt(x, box[2])))]
        return [(st, ("in", x, box))]
    def segs(s, st, v):
        """contents of an iterable as list segments"""
        f = s.flat(st, v)
        if f[0] == "tup": return tuple(("item", x) for x in f[1])
        if f[0] == "seq": return f[1]
        if v[0] == "ref" and st.heap[v[1]].kind in ("list", "set"): return st.heap[v[1]].data
        return (("many", f),)
    def index(s, st, v, i):
        t = v[0]
        if t == "view": return [(st, ("rd", v[1], add(v[2] if num(i) is None or num(i) >= 0 else v[3], i), 1, 0))]
        if t == "tup":
            if num(i) is not None and -len(v[1]) <= num(i) < len(v[1]): return [(st, v[1][num(i)])]
            return [(st, ("op", "item", v, i))]
        if t == "range": return [(st, add(v[1], mul(i, v[3])))]
        o = s.obj(st, v)
        h = s.models.get("index")
        if h:
            r = h(s, st, v, i)
            if r is not None: return r
        if o is not None:
            if o.kind == "list":
                d = o.data; k = num(i)
                if k is not None:
                    if k >= 0 and len(d) > k and all(x[0] == "item" for x in d[:k + 1]): return [(st, d[k][1])]
                    if k < 0 and len(d) >= -k and all(x[0] == "item" for x in d[k:]): return [(st, d[k][1])]
                if len(d) == 1 and d[0][0] in ("unk", "many"): return [(st, ("op", "item", d[0][1], i))]
                return [(st, ("op", "item", ("seq", d), i))]
            if o.kind == "dict":
                b, w = o.data; out = []; cur = st
                for key, val in reversed(w):
                    c = s.equal(cur, key, i)
                    r = c if c in (True, False) else s.decide(cur, c)
                    if r is True: return out + [(cur, val)]
                    if r is False: continue
                    for x, bb in s.fork(cur, c):
                        if bb: out.append((x, val))
                        else: cur = x
                if o.cls is not None and isinstance(o.cls, tuple):     # defaultdict
                    return out + [(cur, ("op", "item", b if b is not None else ("op", "dict", v[1]), i))]
                return out + [(cur, ("op", "item", b if b is not None else ("op", "dict", v[1]), i))]
            if o.kind == "bytes":
                for key, val in reversed(o.data[1]):
                    if key == i: return [(st, val)]
                return [(st, ("rd", o.data[2] or ("op", "buf", v[1]), i, 1, 0))]
            if o.kind == "inst":
                m = s.P.method(o.cls, "__getitem__")
                if m: return s.invoke(st, m[0].mod, m[0], m[1][0], [v, i], {})
        if t == "op" and v[1] == "mem": return [(st, ("rd", v, i, 1, 0))]
        return [(st, ("op", "item", v, i))]
    def slice(s, st, v, lo, hi, step):
        N = ("c", None)
        if v[0] == "op" and v[1] == "mem": v = ("view", v, I(0), ("len", v))
        if v[0] == "view" and step == N:
            a = v[2] if lo == N else (add(v[2], lo) if num(lo) is None or num(lo) >= 0 else add(v[3], lo))
            b = v[3] if hi == N else (add(v[2], hi) if num(hi) is None or num(hi) >= 0 else add(v[3], hi))
            return [(st, ("view", v[1], a, b))]
        if v[0] == "tup" and step == N and all(x == N or num(x) is not None for x in (lo, hi)):
            return [(st, ("tup", v[1][slice(None if lo == N else num(lo), None if hi == N else num(hi))]))]
        o = s.obj(st, v)
        if o is not None and o.kind == "list":
            x = st.copy()
            if (lo, hi, step) == (N, N, N): return [(x, s.new(x, "list", None, o.data))]
            if all(q[0] == "item" for q in o.data) and all(q == N or num(q) is not None for q in (lo, hi, step)):
                return [(x, s.new(x, "list", None, o.data[slice(*(None if q == N else num(q) for q in (lo, hi, step)))]))]
            if step == N and lo in (N, I(0)) and hi == I(-1) and o.data and o.data[-1][0] == "item": return [(x, s.new(x, "list", None, o.data[:-1]))]
            return [(x, s.new(x, "list", None, (("unk", ("op", "slice", o.data, lo, hi, step)),)))]
        return [(st, ("op", "slice", s.deep(st, v), lo, hi, step))]
    def field(s, v, name):
        c = s.cls(v[1])
        fl, _, _ = s.P.fields(c)
        for n, off, w, sg in fl:
            if n == name: return ("rd", v[2], add(v[3], I(off)), w, sg) if sg is not None else ("op", "bytesat", v[2], add(v[3], I(off)), w)
        return None
    def getattr(s, st, v, a):
        t = v[0]
        key = None
        if t == "ref":
            o = st.heap[v[1]]
            if o.kind == "inst":
                m = s.models.get((o.cls.name if o.cls else None, a)); 
                if m is not None and getattr(m, "prop", False): return m(s, st, v, [], {})
                d = dict(o.data)
                if a in d: return [(st, d[a])]
                if o.cls:
                    r = s.class_attr(st, o.cls, a, v)
                    if r is not None: return r
                return [(st, ("op", "attr", v, a))]
            return [(st, ("meth", v, a))]
        if t == "rec":
            f = s.field(v, a)
            if f is not None: return [(st, f)]
            r = s.class_attr(st, s.cls(v[1]), a, v)
            if r is not None: return r
            return [(st, ("op", "attr", v, a))]
        if t == "cint":
            if a == "value": return [(st, v[1])]
        if t == "cls":
            c = s.cls(v) if v[1] else None
            if c:
                if a in c.inner: return [(st, ("op", "innercls", v[2], a))]
                for x in s.P.mro(c):
                    if a in x.consts: return s.const(st, x, x.consts[a])
                m = s.P.method(c, a)
                if m:
                    k = m[1][1]
                    return [(st, ("fn", m[0].mod.name, m[0].name, a, v if k == "class" else None))]
                return [(st, ("clsmeth", v, a))]
        if t == "obj":       # opaque object of a known class:  ('obj', modname, clsname, id)
            m = s.models.get((v[2], a))
            if m is not None and getattr(m, "prop", False): return m(s, st, v, [], {})
            c = s.P.mod(v[1]).classes.get(v[2])
            if c:
                r = s.class_attr(st, c, a, v)
                if r is not None: return r
            return [(st, ("op", "attr", v, a))]
        if t == "super":
            for b in s.P.base(v[1]):
                m = s.P.method(b, a)
                if m: return [(st, ("fn", m[0].mod.name, m[0].name, a, v[2]))]
            return [(st, ("op", "nop"))]
        if t == "ext": return [(st, ("ext", f"{v[1]}.{a}"))]
        if t == "pkgmod": return [(st, s.glob(s.P.mod(v[1]), a))]
        if t == "op" and v[1] in ("attr", "item", "new", "elem", "val", "call", "param", "lv", "hdr"):
            return [(st, ("op", "attr", v, a))]
        return [(st, ("meth", v, a))] if t in ("c", "view", "i", "tup", "range") else [(st, ("op", "attr", v, a))]
    def const(s, st, c, e):
        if not isinstance(e, (ast.Dict, ast.List, ast.Set)): return [(st, s.static(c.mod, c, e))]
        x = st.copy(); back = x.cur; x.frames.append({"__mod__": c.mod, "__cls__": c, "__parent__": None, "__yield__": None}); x.cur = at = len(x.frames) - 1
        out = []
        for y, r in s.ev(x, e): y = y.copy(); del y.frames[at:]; y.cur = back; out.append((y, r))
        return out
    def class_attr(s, st, c, a, self):
        m = s.P.method(c, a)
        if m:
            owner, (node, kind) = m
            if kind == "prop":
                md = s.models.get((c.name, a)) or s.models.get((owner.name, a))
                if md: return md(s, st, self, [], {})
                return s.invoke(st, owner.mod, owner, node, [self], {})
            return [(st, ("fn", owner.mod.name, owner.name, a, None if kind == "static" else self))]
        for x in s.P.mro(c):
            if a in x.consts: return s.const(st, x, x.consts[a])
            if a in x.inner: return [(st, ("op", "innercls", x.name, a))]
        return None
    # ------------------------------------------------------------ calls
    def call(s, st, n):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            i = st.cur; f = st.frames[i]
            first = next((v for k, v in f.items() if not k.startswith("__")), None)
            return [(st, ("super", f["__cls__"], first))]
        kws = [k for k in n.keywords if k.arg]
        def go(x, v):
            f = v[1][0]; args = list(v[1][1:len(v[1]) - len(kws)]); kw = {k.arg: a for k, a in zip(kws, v[1][len(v[1]) - len(kws):])}
            return s.apply(x, f, args, kw, n)
        nodes = [n.func] + list(n.args) + [k.value for k in kws]
        return s.then(s.evs(st, nodes), go)
    def apply(s, st, f, args, kw, n=None):
        t = f[0]
        if t == "fn":
            _, mod, cname, name, self = f
            m = s.P.mod(mod)
            sc = None
            if self is not None:
                sc = self[2] if self[0] == "obj" else st.heap[self[1]].cls.name if self[0] == "ref" and st.heap[self[1]].cls else None
            md = (s.models.get((sc, name)) if sc else None) or s.models.get((cname, name))
            if md: return md(s, st, self, args, kw)
            if cname:
                owner, (node, kind) = s.P.method(m.classes[cname], name)
                a = ([self] if self is not None else []) + args
                return s.invoke(st, owner.mod, owner, node, a, kw)
            return s.invoke(st, m, None, m.funcs[name], args, kw)
        if t == "closure":
            node = s.gens[f[1]]; fr = f[2] if f[2] < len(st.frames) else None
            if fr is None: return [(st, ("op", "call", "closure") + tuple(args))]
            return s.invoke(st, st.frames[fr]["__mod__"], st.frames[fr]["__cls__"], node, args, kw, fr)
        if t == "cls": return s.construct(st, f, args, kw)
        if t == "clsmeth": return s.cls_method(st, f[1], f[2], args, kw)
        if t == "ext": return s.ext(st, f[1], args, kw)
        if t == "meth": return s.call_method(st, f[1], f[2], args, kw)
        if t == "op" and f[1] == "nop": return [(st, ("c", None))]
        if t == "op" and f[1] == "attr":
            md = s.models.get(("*", f[3]))
            if md: return md(s, st, f[2], args, kw)
            return s.call_method(st, f[2], f[3], args, kw)
        x = st.copy(); x.emit("call", f, tuple(args), tuple(sorted(kw.items())))
        return [(x, ("op", "call", f, tuple(s.deep(st, a) for a in args), tuple(sorted(kw.items()))))]
    def construct(s, st, c, args, kw):
        k = s.cls(c)
        md = s.models.get((k.name, "()"))
        if md: return md(s, st, c, args, kw)
        if s.P.is_struct(k): return [(st, ("op", "newrec", k.name))]
        x = st.copy(); ref = s.new(x, "inst", k, ())
        m = s.P.method(k, "__init__")
        if not m:
            anns = [n for b in reversed(s.P.mro(k)) for n in b.node.body if isinstance(n, ast.AnnAssign)]
            d = dict(zip([n.target.id for n in anns], args)); d.update(kw)
            for n in anns:
                if n.target.id not in d and n.value is not None: d[n.target.id] = s.static(k.mod, k, n.value)
            x.heap[ref[1]] = Obj("inst", k, tuple(sorted(d.items()))); return [(x, ref)]
        out = []
        for y, o in s.body(x, m[0].mod, m[0], m[1][0], [ref] + args, kw, None):
            if o[0] not in ("return", "next"): y.pending = o
            y.ev = tuple(e for i, e in enumerate(y.ev) if i < len(x.ev) or not (e[0] == "setattr" and e[1] == ref))
            out.append((y, ref))
        return out
    def buf(s, st, v):
        """(base, lo) of a buffer value"""
        if v[0] == "view": return v[1], v[2]
        return v, I(0)
    def cls_method(s, st, c, name, args, kw):
        k = s.cls(c) if c[1] else None
        if name in ("from_buffer_copy", "from_buffer") and k and s.P.is_struct(k):
            off = args[1] if len(args) > 1 else kw.get("offset", I(0))
            b, lo = s.buf(st, args[0]); return [(st, ("rec", c, b, add(lo, off)))]
        x = st.copy(); x.emit("call", ("clsmeth", c, name), tuple(args), ())
        return [(x, ("op", "call", (c, name)) + tuple(args))]
    def ext(s, st, name, args, kw):
        md = s.models.get(name) or s.models.get(name.split(".")[-1])
        if md: return md(s, st, None, args, kw)
        p = name.split("."); base = p[-1]
        if len(p) >= 2 and p[-2] in CT and base in ("from_buffer_copy", "from_buffer"):
            off = args[1] if len(args) > 1 else kw.get("offset", I(0))
            b, lo = s.buf(st, args[0]); sg, w = CT[p[-2]]
            return [(st, ("cint", ("rd", b, add(lo, off), w, sg)))]
        if base == "from_bytes" and p[-2:-1] == ["int"] and args and args[0][0] == "view":
            w = num(sub(args[0][3], args[0][2])); order = args[1] if len(args) > 1 else kw.get("byteorder", ("c", "big"))
            sg = kw.get("signed", ("c", False))
            if w and (order == ("c", "little") or w == 1): return [(st, ("rd", args[0][1], args[0][2], w, int(bool(sg[1]))))]
        if base in ("unpack_from", "unpack") and args and args[0][0] == "c":
            r = s.struct_unpack(args[0][1], args[1], args[2] if len(args) > 2 else kw.get("offset", I(0)), st)
            if r: return [(st, r)]
        if base in CT and args: return [(st, ("cint", args[0]))]
        if base == "sizeof":
            v = args[0]
            if v[0] == "cls": return [(st, I(s.P.fields(s.cls(v))[1]))]
            if v[0] == "ext" and v[1].split(".")[-1] in CT: return [(st, I(CT[v[1].split(".")[-1]][1]))]
            if v[0] == "rec": return [(st, I(s.P.fields(s.cls(v[1]))[1]))]
        if base == "calcsize" and args and args[0][0] == "c":
            import struct
            return [(st, I(struct.calcsize(args[0][1])))]
        if base == "len" and len(args) == 1: return [(st, s.length(st, args[0]))]
        if base == "range":
            a = args
            return [(st, ("range", I(0), a[0], I(1)) if len(a) == 1 else ("range", a[0], a[1], a[2] if len(a) > 2 else I(1)))]
        if base == "enumerate": return [(st, ("enum", s.flat(st, args[0]) if args[0][0] == "ref" and st.heap[args[0][1]].kind != "inst" else args[0], args[1] if len(args) > 1 else kw.get("start", I(0))))]
        if base == "zip": return [(st, ("zip", tuple(args)))]
        if base == "zip_longest": return [(st, ("ziplong", tuple(args), kw.get("fillvalue", ("c", None))))]
        if base in ("tqdm", "iter", "memoryview"): return [(st, args[0] if args else ("op", "tqdm", s.fresh()))]
        if base == "cast" and len(args) == 2: return [(st, args[1])]
        if base == "isinstance": return s.boolval([(st, s.isinst(st, args[0], args[1]))])
        if base == "bool" and args:
            c = s.truth(st, args[0]); return s.boolval([(st, c)])
        if base == "int" and len(args) == 1:
            v = args[0]
            if s.intish(v) : return [(st, v)]
            if v[0] == "c" and isinstance(v[1], bool): return [(st, I(int(v[1])))]
            return [(st, ("op", "int", v))]
        if base in ("list", "tuple", "set", "frozenset", "sorted", "deque", "bytes", "bytearray", "dict", "sum", "any", "all", "max", "min", "reversed", "next") and base == p[-1]:
            return s.builtin(st, base, args, kw)
        if base == "defaultdict": x = st.copy(); return [(x, s.new(x, "dict", ("default", args[0] if args else None), (None, ())))]
        if base == "print": return [(st, ("c", None))]
        if base in ("str", "Path", "ord", "chr", "hex", "abs", "hash", "repr", "id", "type", "float", "divmod", "pow"): 
            if base == "abs" and nonneg(args[0]): return [(st, args[0])]
            if base == "pow" and len(args) == 2: return s.binop(st, ast.Pow(), *args)
            if base == "divmod": return [(st, ("tup", (fdiv(*args), mod(*args))))]
            if base == "ord" and args[0][0] == "c": return [(st, I(ord(args[0][1])))]
            return [(st, ("op", "new", base, tuple(s.deep(st, a) for a in args), tuple(sorted(kw.items()))))]
        if base == "chain" : return [(st, ("op", "chain", tuple(args)))]
        x = st.copy()
        for a in list(args) + list(kw.values()):
            if a[0] == "ref" and st.heap[a[1]].kind != "inst": s.forget(x, a)
        x.emit("call", ("ext", name), tuple(args), tuple(sorted(kw.items())))
        return [(x, ("op", "new", name, tuple(s.deep(st, a) for a in args), tuple(sorted(kw.items()))))]
    def struct_unpack(s, fmt, b, off, st):
        if isinstance(fmt, bytes): fmt = fmt.decode()
        import struct
        native = fmt[:1] not in "<>=!"; body = fmt.lstrip("<>=!@")
        if fmt[:1] in ">!": return None
        W = {"B": (1, 0), "b": (1, 1), "H": (2, 0), "h": (2, 1), "I": (4, 0), "i": (4, 1), "L": (8 if native else 4, 0), "Q": (8, 0), "q": (8, 1)}
        base, lo = s.buf(st, b); pos, out = 0, []
        for ch in body:
            if ch not in W: return None
            w, sg = W[ch]
            if native: pos = (pos + w - 1) // w * w
            out.append(("rd", base, add(add(lo, off), I(pos)), w, sg)); pos += w
        return ("tup", tuple(out))
    def length(s, st, v):
        o = s.obj(st, v)
        if v[0] == "view": return sub(v[3], v[2])
        if v[0] == "tup": return I(len(v[1]))
        if v[0] == "c" and isinstance(v[1], (str, bytes)): return I(len(v[1]))
        if v[0] == "range" and num(v[3]) == 1: return sub(v[2], v[1]) if s.decide(st, le(v[1], v[2])) else ("len", v)
        if o is not None:
            if o.kind == "bytes": return o.data[0]
            if o.kind in ("list", "set") and all(x[0] == "item" for x in o.data) and o.kind == "list": return I(len(o.data))
            if o.kind == "inst" and o.cls:
                m = s.P.method(o.cls, "__len__")
                if m: return ("len", v)
            if o.kind == "list":
                r = I(0)
                for x in o.data: r = add(r, I(1) if x[0] == "item" else ("len", x[1]))
                return r
            return ("len", (o.kind, o.data))
        return ("len", v)
    def isinst(s, st, v, c):
        if c[0] == "tup":
            r = False
            for x in c[1]:
                y = s.isinst(st, v, x)
                if y is True: return True
                if y is not False: r = y if r is False else ("or", r, y)
            return r
        k = s.obj(st, v)
        if c[0] == "cls":
            if k is not None: return k.kind == "inst" and k.cls is not None and s.cls(c) in s.P.mro(k.cls)
            if v[0] == "obj": return s.cls(c) in s.P.mro(s.P.mod(v[1]).classes[v[2]])
            if v[0] == "rec": return s.cls(c) in s.P.mro(s.cls(v[1]))
            if v[0] in ("i", "c", "tup", "rd", "bits"): return False
        if c[0] == "ext" and c[1] == "int" and (v[0] in ("i", "rd", "bits")): return True
        return ("isinst", v, c)
    def builtin(s, st, base, args, kw):
        if base == "dict" or not args:
            x = st.copy()
            if base in ("bytes", "bytearray"): return [(x, s.new(x, "bytes", None, (I(0), (), None)))]
            if base == "dict" and args: 
                o = s.obj(st, args[0])
                return [(x, s.new(x, "dict", None, o.data if o is not None and o.kind == "dict" else (("op", "dictof", s.deep(st, args[0])), ())))]
            if base == "dict": return [(x, s.new(x, "dict", None, (None, tuple((("c", k), v) for k, v in kw.items()))))]
            return [(x, s.new(x, "set" if base in ("set", "frozenset") else "list", None, ()))]
        a = args[0]
        if base in ("bytes", "bytearray"):
            o = s.obj(st, a); x = st.copy()
            if o is not None and o.kind == "bytes": return [(x, s.new(x, "bytes", None, (o.data[0], (), ("op", "copy", a, o.data[1:]))))]
            if a[0] == "view": return [(st, a)]
            if a[0] not in ("gen", "genexp") and (s.intish(a) and (s.numeric(a) or not (a[0] == "op" and a[1] in ("item", "elem", "val", "attr", "lv", "call")))): return [(x, s.new(x, "bytes", None, (a, (), None)))]
            if a[0] not in ("gen", "genexp", "ref"): 
                return [(x, s.new(x, "bytes", None, (("len", ("op", "copyof", a)), (), ("op", "copyof", a))))]
        if base in ("max", "min"):
            if len(args) == 2:
                x, y = args
                r = s.decide(st, le(x, y))
                if r is not None: return [(st, (y if r else x) if base == "max" else (x if r else y))]
                out = []
                for z, b in s.fork(st, le(x, y)): out.append((z, (y if b else x) if base == "max" else (x if b else y)))
                return out
            return [(st, ("op", base, s.flat(st, a) if a[0] != "gen" else a))]
        if base in ("sum", "any", "all", "reversed", "next"):
            if base == "reversed": 
                f = s.flat(st, a)
                if f[0] == "tup": return [(st, ("tup", tuple(reversed(f[1]))))]
                if f[0] == "range" and num(f[3]) == 1: return [(st, ("range", sub(f[2], I(1)), sub(f[1], I(1)), I(-1)))]
                return [(st, ("op", "reversed", f))]
            return [(st, ("op", base, s.deep(st, a)))]
        kind = "set" if base in ("set", "frozenset") else "list"
        if base == "tuple":
            f = s.flat(st, a)
            if f[0] == "tup": return [(st, f)]
        f = s.flat(st, a)
        x = st.copy()
        if f[0] in ("gen", "genexp", "iterof"):
            ref = s.new(x, kind, None, ()); out = []
            def yl(y, v): return [q for q, _ in s.call_method(y, ref, "append" if kind == "list" else "add", [v], {})]
            for y, o in s.run_gen(x, f, yl):
                if o[0] not in ("return", "next"): y.pending = o
                out.append((y, ref))
            return out
        segs = s.segs(st, a)
        if base == "sorted": segs = (("many", ("op", "sorted", segs, tuple(sorted(kw.items())))),)
        return [(x, s.new(x, kind, None, segs))]
    def numeric(s, v):
        """a field of a ctypes structure"""
        return v[0] == "op" and v[1] == "attr" and v[2][0] == "obj" and s.P.is_struct(s.P.mod(v[2][1]).classes[v[2][2]])
    def zeros(s, st, v):
        """length of a run of zero bytes"""
        if v[0] == "c" and isinstance(v[1], bytes) and not v[1].strip(b"\0"): return I(len(v[1]))
        o = s.obj(st, v)
        if o is not None and o.kind == "bytes" and o.data[1] == () and o.data[2] is None: return o.data[0]
        return None
    def call_method(s, st, v, name, args, kw):
        x = st.copy(); o = s.obj(x, v); N = ("c", None)
        md = s.models.get(("*", name))
        if md: return md(s, st, v, args, kw)
        if o is not None and o.kind in ("list", "set"):
            d = o.data
            def put(nd): x.heap[v[1]] = Obj(o.kind, o.cls, nd, o.at)
            if name in ("append", "add", "appendleft"):
                put(d + (("item", args[0]),) if name != "appendleft" else (("item", args[0]),) + d); x.emit("mut", v, name, (args[0],), s.deep(x, args[0])); return [(x, N)]
            if name in ("extend", "update"):
                f = args[0]
                if s.flat(st, f)[0] in ("gen", "genexp", "iterof"):
                    out = []
                    def yl(y, e): return [q for q, _ in s.call_method(y, v, "append" if o.kind == "list" else "add", [e], {})]
                    for y, oc in s.run_gen(x, s.flat(st, f), yl):
                        if oc[0] not in ("return", "next"): y.pending = oc
                        out.append((y, N))
                    return out
                put(d + s.segs(st, f)); x.emit("mut", v, name, tuple(args), s.segs(st, f)); return [(x, N)]
            if name in ("pop", "popleft"):
                first = name == "popleft" or (args and num(args[0]) == 0)
                if args and num(args[0]) not in (0, -1): s.forget(x, v); x.emit("mut", v, name, tuple(args)); return [(x, ("op", "popped", d, args[0]))]
                if d:
                    e = d[0] if first else d[-1]
                    rest = d[1:] if first else d[:-1]
                    if e[0] == "item": put(rest); x.emit("mut", v, name, ()); return [(x, e[1])]
                    put(((("unk", ("op", "rest", e[1], "first" if first else "last")),) + rest) if first else rest + (("unk", ("op", "rest", e[1], "first" if first else "last")),))
                    x.emit("mut", v, name, ()); return [(x, ("op", "popped", e[1], "first" if first else "last"))]
                x.pending = ("raise", ("c", "IndexError")); return [(x, N)]
            if name == "copy": return [(x, s.new(x, o.kind, None, d))]
            if name == "clear": put(()); x.emit("mut", v, name, ()); return [(x, N)]
            if name in ("union",) : return [(x, s.new(x, "set", None, d + tuple(q for a in args for q in s.segs(st, a))))]
            if name in ("issubset", "issuperset", "index", "count", "isdisjoint", "difference", "intersection"): return [(x, ("op", name, s.deep(st, v)) + tuple(s.deep(st, a) for a in args))]
            s.forget(x, v); x.emit("mut", v, name, tuple(args)); return [(x, ("op", "call", name, s.deep(st, v)) + tuple(args))]
        if o is not None and o.kind == "dict":
            if name == "items": return [(x, ("items", o.data[0] if o.data[0] is not None and not o.data[1] else ("op", "dict", v[1], o.data)))]
            if name == "keys": return [(x, v)]
            if name == "values": return [(x, ("op", "values", o.data))]
            if name == "get":
                out = []
                for y, c in s.contains(x, v, args[0]):
                    for z, b in s.fork(y, c):
                        out += s.index(z, v, args[0]) if b else [(z, args[1] if len(args) > 1 else N)]
                return out
            if name == "setdefault":
                out = []
                for y, c in s.contains(x, v, args[0]):
                    for z, b in s.fork(y, c):
                        if b: out += s.index(z, v, args[0])
                        else: z = z.copy(); s.setitem(z, v, args[0], args[1]); out.append((z, args[1]))
                return out
            if name == "copy": return [(x, s.new(x, "dict", None, o.data))]
            s.forget(x, v); x.emit("mut", v, name, tuple(args)); return [(x, ("op", "call", name, v) + tuple(args))]
        if o is not None and o.kind == "bytes":
            if name == "ljust" and len(args) >= 1 and (len(args) == 1 or args[1] == ("c", b"\0")):
                out = []
                for y, b in s.fork(x, le(args[0], o.data[0])):
                    y = y.copy(); out.append((y, s.new(y, "bytes", None, (o.data[0] if b else args[0], (), ("op", "pad", v, o.data[1:])))))
                return out
            if name == "extend" and s.zeros(x, args[0]) is not None:
                x.heap[v[1]] = Obj("bytes", o.cls, (add(o.data[0], s.zeros(x, args[0])),) + o.data[1:], o.at); return [(x, N)]
            if name == "extend" or name == "append":
                s.forget(x, v); x.emit("mut", v, name, tuple(args)); return [(x, N)]
        if o is not None and o.kind == "inst" and o.cls and o.cls is not None:
            pass
        if name == "value": return [(x, v)]
        if v[0] == "op" and name == "ljust" and (len(args) == 2 and args[1] == ("c", b"\0")):
            out = []; n = s.length(x, v)
            for y, b in s.fork(x, le(args[0], n)):
                y = y.copy(); out.append((y, s.new(y, "bytes", None, (n if b else args[0], (), ("op", "pad", v, ((), None))))))
            return out
        if v[0] == "tup" and name in ("index", "count"): return [(x, ("op", name, v) + tuple(args))]
        if v[0] == "view":
            if name == "tobytes": return [(x, v)]
            if name == "decode": return [(x, ("op", "new", "str", (v, args[0] if args else kw.get("encoding", ("c", "utf-8"))) + tuple(args[1:]), tuple(kw.items())))]
        if name in ("items",): return [(x, ("items", v))]
        if name in ("keys",): return [(x, ("op", "keys", v))]
        for a in list(args) + list(kw.values()):
            if a[0] == "ref" and st.heap[a[1]].kind not in ("inst", "bytes"): s.forget(x, a)
        x.emit("mut", v, name, tuple(args), tuple(s.deep(st, a) for a in args))
        return [(x, ("op", "call", name, s.deep(st, v), tuple(s.deep(st, a) for a in args), tuple(sorted(kw.items()))))]

def show(v, d=0):
    """readable form of a value"""
    if not isinstance(v, tuple) or not v: return repr(v)
    t = v[0]
    if t == "i":
        s = " + ".join(([str(v[1])] if v[1] or not v[2] else []) + [(f"{c}*" if c != 1 else "") + show(a) for a, c in v[2]]); return s
    if t == "c": return repr(v[1])
    if t == "rd": return f"{'s' if v[4] else 'u'}{8 * v[3]}[{show(v[1])} at {show(v[2])}]"
    if t == "bits": return "|".join(f"{show(s)}<{lo}:{lo + w if w < INF else ''}>" + (f"<<{at}" if at else "") for s, lo, w, at in v[1])
    if t == "k": return f"k{v[1]}"
    if t == "view": return f"{show(v[1])}[{show(v[2])}:{show(v[3])}]"
    if t == "tup": return "(" + ", ".join(map(show, v[1])) + ")"
    if t == "op": return f"{v[1]}({', '.join(show(x) if isinstance(x, tuple) else str(x) for x in v[2:])})"
    if t == "attr": return f"{show(v[1])}.{v[2]}"
    return f"{t}({', '.join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in v[1:])})"
