"""Path-sensitive value-flow analysis of one canonicalised IR function.

Values are linear terms (terms.py); branch conditions go into a zone (facts.py).  A loop is
summarised: the header's phis (and loop-written memory cells) become `init + step*K` when every
back path advances them by the same constant, an opaque atom otherwise, and one arbitrary
iteration K is analysed.  Nothing is executed and no solver is involved: a branch is dropped only
when the zone refutes it."""
import re
from collections import namedtuple
from .terms import Lin, const, atom, add, sub, scale, addc, bits, atoms_of, show, subst
from . import terms
from .facts import Facts, NEG
from .llvmc import Const, Null, Undef, Glob, Agg, Opaque, Arg, Instr, demangle
from .cxx import AnalysisBroken
from .prep import bare

NOCLOBBER = {"fileno", "strlen", "ftello", "ftello64", "ftell", "lseek", "lseek64", "dfsan_read_label", "dfsan_set_label", "getenv",
             "memcmp", "bcmp", "strcmp", "atexit", "printf", "puts", "putchar", "fflush"}
ARGMEM = re.compile(r"^std::(__cxx11::|filesystem::)*(__cxx11::)?(basic_(string|ostream|istream|iostream|stringstream|ostringstream|ios|streambuf|stringbuf)|path|ostream|to_string)(::|$)|^std::operator(<<|\+|==)$")
NO_STATE = {"strlen", "memcmp", "bcmp", "strcmp"}

class AggV:
    __slots__ = ("d",)
    def __init__(s, d): s.d = d
    def __repr__(s): return "{" + ", ".join(f"{k}:{v}" for k, v in sorted(s.d.items())) + "}"
    def __eq__(s, o): return isinstance(o, AggV) and s.d == o.d
    def __hash__(s): return hash(tuple(sorted((k, v) for k, v in s.d.items())))

class Ev:
    """an observable step of a path: call | store | rmw | cmpxchg | load(atomic/volatile)"""
    __slots__ = ("kind", "callee", "dname", "args", "res", "addr", "val", "size", "loc", "seq", "loops", "ncond", "ins", "order", "mem")
    def __repr__(s):
        if s.kind == "call": return f"{short(s.dname)}({', '.join(map(str, s.args))})" + (f" -> {s.res}" if s.res is not None else "")
        return f"{s.kind} [{s.addr}]:{s.size} = {s.val}"
def short(n):
    n = n or "?"
    return n.split("(")[0] if not n.startswith("(") else n

class Path:
    __slots__ = ("fn", "facts", "events", "mem", "ret", "end", "loops", "lines", "env", "last")
    def calls(s, pat=None):
        out = [e for e in s.events if e.kind == "call"]
        if pat is None: return out
        if isinstance(pat, str): return [e for e in out if e.callee == pat]
        return [e for e in out if pat.search(e.dname or "")]
    def where(s):
        return " -> ".join(str(l) for l in s.lines[-8:])

class Mem:
    """persistent log of memory effects"""
    __slots__ = ("prev", "rec", "n")
    def __init__(s, prev, rec): s.prev, s.rec, s.n = prev, rec, (prev.n + 1 if prev else 1)

class LoopInfo:
    __slots__ = ("uid", "header", "init", "steps", "backs", "cells", "entry_facts", "K")

class State:
    __slots__ = ("env", "facts", "mem", "events", "loops", "lines", "escaped", "entered")
    def fork(s):
        n = State(); n.env = dict(s.env); n.facts = s.facts.copy(); n.mem = s.mem; n.events = list(s.events)
        n.loops = s.loops; n.lines = list(s.lines); n.escaped = set(s.escaped); n.entered = dict(s.entered)
        return n

def base_of(t):
    """the pointer-like atom an address is built on, or None"""
    ptrs = [a for a, k in t.t if k == 1 and a[0] in ("alloca", "arg", "glob", "ld", "call", "iv", "ext", "pure")]
    al = [a for a in ptrs if a[0] in ("alloca", "glob")]
    if al: return al[0]
    return ptrs[0] if len(ptrs) >= 1 else None

class _Skipped: id = -1
SKIPPED = _Skipped()
class Analyzer:
    def __init__(self, M, fname, assume=None, noalias_args=True, pure=(), noclobber=(), max_paths=6000, arg_terms=None, seed=None, mem_seed=None, readonly=None, private=(), watch=None, nonnull=(), stable=None, unroll=0, skip=None):
        self.skip, self._regions = skip, {}      # skip(instruction): of no interest; branches over nothing else are stepped over
        self.unroll = unroll          # follow loops step by step, at most this many times round (0: summarise them)
        self.stable = stable          # cells that are never written after construction (checked separately)
        self.watch, self.nonnull = watch, set(nonnull)
        self.M, self.F = M, M.fn(fname)
        self.pure, self.nocl = set(pure), set(noclobber) | NOCLOBBER
        self.noalias_args = noalias_args
        self.private = set(private)      # parameters whose target no callee can reach unless given it
        self.max_paths = max_paths
        self.uid = 0
        self.paths = []
        self.loopinfo = {}
        self.assume_fn = assume
        self.arg_terms = arg_terms or {}
        self.readonly = readonly or (lambda d: False)
        self._cfg()
    # ------------------------------------------------------------ CFG
    def _cfg(self):
        F = self.F; bl = F.blocks; n = len(bl)
        order = []; seen = set()
        st = [(bl[0], iter(bl[0].succ))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id); st.append((s, iter(s.succ))); break
            else:
                order.append(b); st.pop()
        order.reverse(); self.rpo = order
        pos = {b.id: i for i, b in enumerate(order)}
        idom = {bl[0].id: bl[0].id}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p.id for p in b.preds if p.id in idom]
                if not ps: continue
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while pos[a] > pos[c]: a = idom[a]
                        while pos[c] > pos[a]: c = idom[c]
                    d = a
                if idom.get(b.id) != d: idom[b.id] = d; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if idom[b] == b: return False
                b = idom[b]
        self.dom = dom
        self.loop = {}          # header id -> set of block ids
        for b in order:
            for s in b.succ:
                if dom(s.id, b.id):
                    body = self.loop.setdefault(s.id, {s.id})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x.id in body: continue
                        body.add(x.id); w.extend(x.preds)
                elif pos[s.id] <= pos[b.id]:
                    raise AnalysisBroken(f"irreducible loop in {F.dname}")
    # ------------------------------------------------------------ run
    def run(self):
        s = State(); s.env = {}; s.facts = Facts(); s.mem = None; s.events = []; s.loops = (); s.lines = []; s.escaped = set(); s.entered = {}
        for a in self.F.args:
            w = self._width(a.ty)
            t = self.arg_terms.get(a.i) or atom(("arg", a.i), w)
            terms.set_width(("arg", a.i), w)
            s.env[a] = t
        if self.assume_fn: self.assume_fn(s.facts, s.env, self.F)
        self._go(s, self.F.blocks[0], None, None)
        return self.paths
    def _width(self, ty):
        if ty.startswith("i") and ty[1:].isdigit(): return int(ty[1:])
        return 64
    # explore from block b (coming from pred); stop = (set of blocks allowed, sink list) for phase 1
    def _go(self, s, b, pred, stop):
        work = [(s, b, pred)]
        while work:
            s, b, pred = work.pop()
            out = self._block(s, b, pred, stop)
            for x in out: work.append(x)
    def _finish(self, s, end, ret, stop, last=None):
        p = Path(); p.fn = self.F; p.facts, p.events, p.mem, p.ret, p.end, p.loops, p.lines, p.env, p.last = s.facts, s.events, s.mem, ret, end, s.loops, s.lines, s.env, last
        if stop is not None: stop[1].append((p, s))
        else:
            self.paths.append(p)
            if len(self.paths) > self.max_paths:
                raise AnalysisBroken(f"more than {self.max_paths} paths in {self.F.dname}")
    def _block(self, s, b, pred, stop):
        # back edge?
        if b.id in self.loop:
            act = [u for u in s.loops if u[0] == b.id]
            if pred is not None and pred.id in self.loop[b.id] and act:
                # values carried round
                uid = act[-1]
                carried = {}
                for I in b.ins:
                    if I.op != "phi": break
                    carried[I.id] = self._phi_in(s, I, pred)
                s.env[("carried", uid)] = carried
                self._finish(s, ("back", uid), None, stop)
                return []
        if self.unroll and b.id in self.loop:
            n = s.env.get(("visits", b.id), 0)
            if not (pred is not None and pred.id in self.loop[b.id]): n = 0
            if n > self.unroll:
                self._finish(s, "bound", None, stop)
                return []
            s.env[("visits", b.id)] = n + 1
        # leaving loops
        if s.loops:
            s.loops = tuple(u for u in s.loops if b.id in self.loop[u[0]])
        if stop is not None and b.id not in stop[0]:
            s.env[("exitpred",)] = pred
            self._finish(s, ("exit", b.id), None, stop)
            return []
        if not self.unroll and b.id in self.loop and not (pred is not None and pred.id in self.loop[b.id]):
            pe = self._peel(s, b, pred)
            if pe: return [pe]
            if not self._enter_loop(s, b, pred, stop): return []
            start = True
        else:
            vals = []
            for I in b.ins:
                if I.op != "phi": break
                vals.append((I, self._phi_in(s, I, pred)))
            for I, v in vals: s.env[I] = v
        return self._run_from(s, b, 0, stop)
    def _phi_in(self, s, I, pred):
        if pred is SKIPPED:
            cs = {(o.v, o.w) if isinstance(o, Const) else None for o in I.ops}
            if len(cs) == 1 and None not in cs: return self._op(s, I.ops[0], I)
            return atom(("opaque", self._fresh()), I.w or 64)
        for o, bb in zip(I.ops, I.blocks):
            if bb is pred: return self._op(s, o, I)
        raise AnalysisBroken("phi without incoming edge")
    # ------------------------------------------------------------ loops
    def _peel(self, s, b, pred):
        """a loop whose every decision folds to a constant (a fixed table walk) is followed step by step"""
        phis = [I for I in b.ins if I.op == "phi"]
        cur = {I.id: self._phi_in(s, I, pred) for I in phis}
        if not any(isinstance(v, Lin) and v.const for v in cur.values()): return None
        uid = (b.id, ("peel", self._fresh())); t = s
        for _ in range(64):
            u = t.fork(); u.loops = s.loops + (uid,)
            for I in phis: u.env[I] = cur[I.id]
            acc = []; stop = (self.loop[b.id], acc)
            work = self._run_from(u, b, 0, stop)
            for x in work: self._go(x[0], x[1], x[2], stop)
            if len(acc) != 1: return None
            p, st = acc[0]
            if p.end == ("back", uid): cur = st.env[("carried", uid)]; t = st; continue
            if isinstance(p.end, tuple) and p.end[0] == "exit":
                st.loops = s.loops
                return (st, next(x for x in self.F.blocks if x.id == p.end[1]), st.env[("exitpred",)])
            return None
        return None
    def _enter_loop(self, s, b, pred, stop):
        s.entered[b.id] = s.entered.get(b.id, 0) + 1
        uid = (b.id, s.entered[b.id])
        phis = [I for I in b.ins if I.op == "phi"]
        init = {I.id: self._phi_in(s, I, pred) for I in phis}
        body = self.loop[b.id]
        K = atom(("K", uid), 64)
        def phase(steps, cellsteps, keepfacts):
            t = s.fork(); t.loops = s.loops + (uid,)
            ev0 = len(t.events)
            if steps is None or any(x is None for x in steps.values()) or True: pass
            # memory: everything the loop may write is forgotten, then known cells re-established
            t.mem = Mem(t.mem, ("loop", uid, clob["addrs"], clob["calls"]))
            t.escaped |= clob["esc"]
            for (ad, sz), stp in cellsteps.items():
                t.mem = Mem(t.mem, ("store", ad, sz, stp(K), None))
            for I in phis:
                t.env[I] = steps[I.id](K)
            t.facts.assume("sge", K, const(0, 64))
            for f in keepfacts: t.facts.assume(*f)
            acc = []
            work = self._run_from(t, b, 0, (body, acc))
            for x in work: self._go(x[0], x[1], x[2], (body, acc))
            return ev0, acc
        def ivs(I):
            a = ("iv", uid, I.id); terms.set_width(a, I.w or 64)
            if isinstance(init[I.id], AggV): return lambda K: AggV({})
            return lambda K: atom(a, init[I.id].w)
        clob = {"addrs": [], "calls": False, "esc": set()}
        # -- phase 0: what does the body write? (iterate to a fixed point: at most 3 rounds)
        iv = {I.id: ivs(I) for I in phis}
        for _ in range(4):
            ev0, acc = phase(iv, {}, ())
            addrs, calls, esc = [], False, set()
            for p, st in acc:
                m = st.mem
                while m is not None and not (m.rec[0] == "loop" and m.rec[1] == uid):
                    r = m.rec
                    if r[0] in ("store", "copy"): addrs.append((r[1], r[2]))
                    elif r[0] == "loop":
                        addrs += r[2]; calls = calls or r[3]
                    else: calls = True
                    m = m.prev
                esc |= st.escaped
            addrs = list(dict.fromkeys(addrs))
            if set(addrs) <= set(clob["addrs"]) and calls <= clob["calls"] and esc <= (clob["esc"] | s.escaped): break
            clob = {"addrs": list(dict.fromkeys(clob["addrs"] + addrs)), "calls": calls or clob["calls"], "esc": clob["esc"] | esc}
        # -- phase 1: steps of phis, and of memory cells at loop-invariant addresses
        def invariant(t): return not any(a[0] in ("iv", "K") and a[1] == uid or (a[0] == "call" and self._born_in(a, s)) or (a[0] == "ld" and a[3] == ("L", uid)) for a in atoms_of(t))
        cells = {}
        for ad, sz in clob["addrs"]:
            if invariant(ad) and sz in (1, 2, 4, 8):
                w = sz * 8
                a = ("iv", uid, ("cell", ad, sz)); terms.set_width(a, w)
                cells[(ad, sz)] = (lambda aa, ww: (lambda K: atom(aa, ww)))(a, w)
        # cells that other writes of the loop may hit are not tracked
        def conflicts(c):
            for d in clob["addrs"]:
                if d != c and self._alias(d[0], d[1], c[0], c[1], s.escaped | clob["esc"]) != "no": return True
            if clob["calls"]:
                ba = base_of(c[0])
                if not (ba and ba[0] == "alloca" and ba not in (s.escaped | clob["esc"])): return True
            return False
        cells = {c: v for c, v in cells.items() if not conflicts(c)}
        ev0, acc = phase(iv, cells, ())
        steps = {}; cellsteps = {}
        backs = [(p, st) for p, st in acc if p.end == ("back", uid)]
        for I in phis:
            st0 = self._step([st.env[("carried", uid)][I.id] for p, st in backs], iv[I.id](K), init[I.id])
            steps[I.id] = st0 or iv[I.id]
        for c, f in cells.items():
            cur = f(K)
            i0 = self._load(s, c[0], c[1], None)
            vals = [self._load(st, c[0], c[1], None) for p, st in backs]
            st0 = self._step(vals, cur, i0) if isinstance(i0, Lin) else None
            cellsteps[c] = st0 or f
        # -- phase 2: loop-invariant upper bounds on K
        keep = []
        ev0, acc = phase(steps, cellsteps, ())
        backs = [(p, st) for p, st in acc if p.end == ("back", uid)]
        cand = set()
        for p, st in backs:
            for (pr, x, y) in st.facts.conds[len(s.facts.conds):]:
                if pr == "bool" or x.w != y.w: continue
                d = sub(x, y)
                kk = dict(d.t).get(("K", uid))
                if kk in (1, -1) and d.w == 64:
                    T = scale(Lin(d.w, d.c, tuple((a, k) for a, k in d.t if a != ("K", uid))), -kk)
                    if invariant(T): cand.add(T)
        for T in cand:
            if all(st.facts.holds("ult", K, T) for p, st in backs): keep.append(("ule", K, T))
            if all(st.facts.holds("slt", K, T) for p, st in backs) and s.facts.holds("sge", T, const(0, 64)): keep.append(("sle", K, T))
            if all(st.facts.holds("ne", K, T) for p, st in backs): keep.append(("ule", K, T))   # K counts up by one from zero
        # -- final: continue the real exploration from here
        li = LoopInfo(); li.uid, li.header, li.init, li.K = uid, b, init, K
        li.steps = {i: f(K) for i, f in steps.items()}; li.cells = {c: f(K) for c, f in cellsteps.items()}
        li.backs = None; li.entry_facts = s.facts.copy()
        self.loopinfo[uid] = li
        s.mem = Mem(s.mem, ("loop", uid, clob["addrs"], clob["calls"]))
        s.escaped |= clob["esc"]
        for (ad, sz), f in cellsteps.items(): s.mem = Mem(s.mem, ("store", ad, sz, f(K), None))
        for I in phis: s.env[I] = steps[I.id](K)
        s.facts.assume("sge", K, const(0, 64))
        for f in keep: s.facts.assume(*f)
        s.loops = s.loops + (uid,)
        return True
    def _born_in(self, a, s):
        return a[1] > max([e.seq for e in s.events], default=0)
    def _step(self, vals, cur, init):
        if not isinstance(init, Lin) or not vals: return None
        st = None
        for v in vals:
            if not isinstance(v, Lin) or v.w != cur.w: return None
            d = sub(v, cur)
            if not d.const: return None
            if st is None: st = d.sc
            elif st != d.sc: return None
        w = init.w
        return lambda K: add(init, scale(Lin(w, 0, K.t), st), w)
    # ------------------------------------------------------------ instructions
    def _run_from(self, s, b, i, stop):
        """returns follow-up (state, block, pred) triples"""
        ins = b.ins
        work = [(s, i)]
        out = []
        while work:
            s, i = work.pop()
            while i < len(ins):
                I = ins[i]
                if I.op == "phi": i += 1; continue
                r = self._ins(s, I, stop)
                if r is None: i += 1; continue
                kind = r[0]
                if kind == "fork":          # [(state)] each already has env[I]
                    for t in r[1][1:]: work.append((t, i + 1))
                    if not r[1]: break
                    s = r[1][0]; i += 1; continue
                if kind == "goto":
                    for t, nb in r[1]: out.append((t, nb, b))
                    break
                if kind == "skip": out.append(r[1] + (SKIPPED,)); break
                if kind == "end": break
        return out
    def _region(self, I):
        """where the paths of a branch meet again, when nothing of interest happens before that; else None"""
        if id(I) in self._regions: return self._regions[id(I)]
        b = I.bb; J = None
        if not hasattr(self, "_alive"):
            al = {x.id for x in self.F.blocks if x.ins and x.ins[-1].op == "ret"}; ch = True
            while ch:
                ch = False
                for x in self.F.blocks:
                    if x.id not in al and any(y.id in al for y in x.succ): al.add(x.id); ch = True
            self._alive = al
        def reach(x, without):
            seen, w = set(), [y for y in x.succ if y.id != without]
            while w:
                y = w.pop()
                if y.id in seen: continue
                seen.add(y.id); w += [z for z in y.succ if z.id != without]
            return seen
        by = {x.id: x for x in self.F.blocks}
        # nearest common continuation: without it no return is reachable from b
        cands = [x for x in self.rpo if x.id in self._alive and x.id != b.id and x.id in reach(b, None)]
        for c in cands:
            R = reach(b, c.id)
            if b.id in R or any(by[y].ins[-1].op == "ret" for y in R): continue
            if c.id in self.loop: break
            if any(not self.skip(i) for y in R for i in by[y].ins if i.op not in ("phi", "br", "switch", "unreachable")): break
            J = c; break
        self._regions[id(I)] = J
        return J
    def _op(self, s, o, I=None):
        if isinstance(o, (Instr, Arg)):
            return s.env[o]
        if isinstance(o, Const): return const(o.v, o.w)
        if isinstance(o, Null): return const(0, 64)
        if isinstance(o, Glob): return addc(atom(("glob", o.name), 64), o.off)
        if isinstance(o, Undef):
            w = I.w if I is not None and I.w else 64
            if I is not None and I.op in ("insertvalue",): return AggV({})
            return atom(("undef", w), w)
        if isinstance(o, Agg):
            return AggV({(i,): self._op(s, e, None) for i, e in enumerate(o.els)})
        return atom(("opaque", getattr(o, "text", "?")), 64)
    def _fresh(self):
        self.uid += 1
        return self.uid
    # truth of a w=1 term: list of (state, bool)
    def split(self, s, t):
        if t.const: return [(s, bool(t.c))]
        if len(t.t) > 1:
            res = []
            a, _ = t.t[0]
            rest = Lin(1, t.c, t.t[1:])
            for s1, v1 in self.split(s, atom(a, 1)):
                for s2, v2 in self.split(s1, rest): res.append((s2, v1 ^ v2))
            return res
        a = t.t[0][0]; neg = bool(t.c)
        r = self._split_atom(s, a)
        return [(x, v ^ neg) for x, v in r]
    def _split_atom(self, s, a):
        if a[0] == "cmp":
            h = s.facts.holds(a[1], a[2], a[3])
            if h is not None: return [(s, h)]
            t = s.fork()
            s.facts.assume(a[1], a[2], a[3]); t.facts.assume(NEG[a[1]], a[2], a[3])
            return [(x, v) for x, v in ((s, True), (t, False)) if not x.facts.infeasible]
        if a[0] == "op" and a[1] in ("and", "or"):
            res = []
            for s1, v1 in self.split(s, a[3]):
                if a[1] == "and" and not v1: res.append((s1, False))
                elif a[1] == "or" and v1: res.append((s1, True))
                else: res += self.split(s1, a[4])
            return res
        one = const(1, 1)
        for (p, x, y) in s.facts.conds:
            if p == "bool" and x == a: return [(s, y)]
        t = s.fork()
        s.facts.conds.append(("bool", a, True)); t.facts.conds.append(("bool", a, False))
        if a[0] == "trunc" and a[1] == 1:     # low bit of a bool byte
            pass
        return [(s, True), (t, False)]
    def _icmp(self, s, pred, a, b):
        if isinstance(a, AggV) or isinstance(b, AggV): return atom(("cmpx", self._fresh()), 1)
        if a.w != b.w: b = Lin(a.w, b.c, b.t)
        if pred in ("ugt", "uge", "sgt", "sge"):
            pred = {"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}[pred]; a, b = b, a
        neg = False
        if pred == "ne": pred, neg = "eq", True
        if pred == "eq" and repr(b) < repr(a) and not b.const or (pred == "eq" and a.const and not b.const): a, b = b, a
        # bool byte compared with a constant
        if a.w > 1 and b.const and pred == "eq":
            x = a.single()
            if x and x[0] == "zext" and x[2].w == 1:
                if b.c in (0, 1):
                    r = x[2] if b.c == 1 else addc(x[2], 1)
                    return addc(r, 1) if neg else r
                return const(1 if neg else 0, 1)
        h = s.facts.holds(pred, a, b)
        if h is None and pred == "eq" and b.const and b.c == 0 and (self._nonnull(a) or (a.w == 64 and a.t and ("deref", a.t) in s.env)): h = False
        if h is None and pred == "eq":
            ba, bb = bits(a), bits(b)
            if any(x in (0, 1) and y in (0, 1) and x != y for x, y in zip(ba, bb)): h = False
        if h is not None: return const(int(h ^ neg), 1)
        r = atom(("cmp", pred, a, b), 1)
        return addc(r, 1) if neg else r
    def _nonnull(self, a):
        """a field of an object, or a local or global one, is never at address 0"""
        if a.w != 64 or len(a.t) != 1 or a.t[0][1] != 1: return False
        x = a.t[0][0]
        if x[0] in ("alloca", "glob"): return True
        return x[0] == "arg" and isinstance(x[1], int) and self.F.args[x[1]].ty == "ptr" and (0 < a.c < 1 << 32 or x[1] in self.nonnull)
    def _binop(self, op, w, a, b):
        if op == "add": return add(a, b, w)
        if op == "sub": return add(a, scale(b, -1, w), w)
        if op == "mul":
            if b.const: return scale(a, b.sc, w)
            if a.const: return scale(b, a.sc, w)
            if repr(b) < repr(a): a, b = b, a
            return atom(("op", "mul", w, a, b), w)
        if op == "shl" and b.const and b.c < w: return scale(a, 1 << b.c, w)
        if w == 1:
            if op == "xor": return add(a, b, 1)
            if op == "and":
                if a.const: return b if a.c else a
                if b.const: return a if b.c else b
            if op == "or":
                if a.const: return a if a.c else b
                if b.const: return b if b.c else a
        if a.const and b.const:
            x, y = a.c, b.c; sx, sy = a.sc, b.sc
            try:
                v = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "lshr": lambda: x >> y, "shl": lambda: x << y,
                     "ashr": lambda: sx >> y, "udiv": lambda: x // y, "urem": lambda: x % y, "sdiv": lambda: int(sx / sy), "srem": lambda: sx - sy * int(sx / sy)}[op]()
                return const(v, w)
            except (ZeroDivisionError, KeyError): pass
        if op in ("and", "or") and a == b: return a
        if op in ("and", "or", "xor"):
            if a.const: a, b = b, a
            if b.const:
                if op == "and" and b.c == 0: return b
                if op in ("or", "xor") and b.c == 0: return a
                if op == "and" and b.c == (1 << w) - 1: return a
                if op == "xor" and b.c == (1 << w) - 1: return add(scale(a, -1, w), const(-1, w), w)
                if op == "or" and b.c == (1 << w) - 1: return b
            if op == "or":
                u, v = bits(a), bits(b)
                if all(p == 0 or q == 0 for p, q in zip(u, v)): return add(a, b, w)
            if not b.const and repr(b) < repr(a): a, b = b, a
        if op in ("lshr", "ashr", "shl", "udiv", "sdiv") and b.const and b.c == (0 if op in ("lshr", "ashr", "shl") else 1): return a
        if op == "udiv" and b.const and b.c & (b.c - 1) == 0 and b.c: return self._binop("lshr", w, a, const(b.c.bit_length() - 1, w))
        if op == "urem" and b.const and b.c & (b.c - 1) == 0 and b.c: return self._binop("and", w, a, const(b.c - 1, w))
        if op in ("lshr", "ashr") and b.const and a.c == 0 and len(a.t) == 1 and a.t[0][1] == 1 << b.c:
            x = a.t[0][0]      # (x >> s << k) >> k, s >= k: nothing is lost (sizes stay below half the address space)
            if x[0] == "op" and x[1] == "lshr" and x[4].const and x[4].c >= b.c: return atom(x, w)
        if op == "lshr" and b.const:
            x = a.single()
            if x and x[0] == "op" and x[1] == "lshr" and x[4].const: return self._binop("lshr", w, x[3], const(x[4].c + b.c, w))
            # an exactly divisible linear form
            # lshr of k*x: only when no bits are lost is it linear; leave opaque
        if op == "and" and b.const:
            if b.c & (b.c + 1) == 0 and w > 1:
                # low bits only: whatever is a multiple of the mask's period drops out (a mapping starts on a page)
                n = b.c + 1; kept = tuple((y, k) for y, k in a.t if (k * (4096 if y[0] == "call" and y[2] == "mmap" else 1)) % n)
                if len(kept) != len(a.t): return self._binop("and", w, Lin(w, a.c % n, kept), b)
            x = a.single()
            if x and x[0] == "op" and x[1] == "and" and x[4].const: return self._binop("and", w, x[3], const(x[4].c & b.c, w))
        r = ("op", op, w, a, b); terms.set_width(r, w)
        return atom(r, w)
    def _ext(self, kind, w, a):
        if a.const:
            return const(a.c if kind == "zext" else a.sc, w)
        x = a.single()
        if x and x[0] == "zext": return self._ext("zext", w, x[2])
        if x and x[0] == "sext" and kind == "sext": return self._ext("sext", w, x[2])
        r = (kind, w, a); terms.set_width(r, w)
        return atom(r, w)
    def _trunc(self, w, a):
        r = const(a.c, w)
        for x, k in a.t:
            if x[0] in ("zext", "sext"):
                if x[2].w == w: y = x[2]
                elif x[2].w > w: y = self._trunc(w, x[2])
                else: y = self._ext(x[0], w, x[2])
            elif x[0] == "trunc": y = self._trunc(w, x[2])
            elif x[0] == "K": y = Lin(w, 0, ((x, 1),))
            elif x[0] == "op" and x[1] == "and" and x[4].const and (x[4].c & ((1 << w) - 1)) == (1 << w) - 1: y = self._trunc(w, x[3])
            else:
                t = ("trunc", w, atom(x, a.w)); terms.set_width(t, w); y = atom(t, w)
            r = add(r, scale(y, k, w), w)
        return r
    def _ins(self, s, I, stop):
        op = I.op
        env = s.env
        if I.line and (not s.lines or s.lines[-1] != (I.file, I.line)): s.lines.append((I.file, I.line))
        if op in ("br", "switch") and self.skip and I.ops:
            J = self._region(I)
            if J is not None and not (isinstance(self._op(s, I.ops[0], I), Lin) and self._op(s, I.ops[0], I).const):
                s.mem = Mem(s.mem, ("call", self._fresh(), frozenset(s.escaped), frozenset(range(len(self.F.args)))))
                return ("skip", (s, J))
        if op == "br":
            if not I.ops: return ("goto", [(s, I.blocks[0])])
            c = self._op(s, I.ops[0], I)
            return ("goto", [(t, I.blocks[0] if v else I.blocks[1]) for t, v in self.split(s, c)])
        if op == "switch":
            v = self._op(s, I.ops[0], I); out = []
            cur = s
            if isinstance(v, Lin) and v.w == 1:
                tab = {self._op(s, c, I).c & 1: b for c, b in zip(I.extra, I.blocks[1:])}
                return ("goto", [(t, tab.get(1 if x else 0, I.blocks[0])) for t, x in self.split(s, v)])
            for c, b in zip(I.extra, I.blocks[1:]):
                cc = self._op(s, c, I)
                h = cur.facts.holds("eq", v, cc)
                if h is True: out.append((cur, b)); cur = None; break
                if h is False: continue
                t = cur.fork(); t.facts.assume("eq", v, cc); cur.facts.assume("ne", v, cc)
                if not t.facts.infeasible: out.append((t, b))
                if cur.facts.infeasible: cur = None; break
            if cur is not None: out.append((cur, I.blocks[0]))
            return ("goto", out)
        if op == "ret":
            r = self._op(s, I.ops[0], I) if I.ops else None
            self._finish(s, "ret", r, stop, I); return ("end",)
        if op == "unreachable":
            self._finish(s, "noreturn", None, stop, I); return ("end",)
        if op == "alloca":
            env[I] = atom(("alloca", I.id), 64); return
        if op == "gep":
            t = self._op(s, I.ops[0], I)
            if isinstance(t, AggV): env[I] = atom(("opaque", self._fresh()), 64); return
            t = addc(t, I.gep[0])
            for o, sc in I.gep[1]:
                x = self._op(s, o, I)
                if x.w < 64: x = self._ext("sext", 64, x)
                t = add(t, scale(x, sc), 64)
            env[I] = t; return
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = self._op(s, I.ops[0], I), self._op(s, I.ops[1], I)
            if isinstance(a, AggV) or isinstance(b, AggV) or not I.w: env[I] = atom(("opaque", self._fresh()), I.w or 64); return
            env[I] = self._binop(op, I.w, a, b); return
        if op == "icmp":
            env[I] = self._icmp(s, I.pred, self._op(s, I.ops[0], I), self._op(s, I.ops[1], I)); return
        if op in ("zext", "sext"):
            a = self._op(s, I.ops[0], I)
            if a.w == 1 and not a.const:
                res = []
                for t, v in self.split(s, a):
                    t.env[I] = const((1 if op == "zext" else -1) if v else 0, I.w); res.append(t)
                return ("fork", res)
            env[I] = self._ext(op, I.w, a); return
        if op == "trunc":
            a = self._op(s, I.ops[0], I)
            if I.w == 1:
                if a.const: env[I] = const(a.c & 1, 1); return
                b = bits(a)[0]
                if b in (0, 1) and b is not None: env[I] = const(b, 1); return
            env[I] = self._trunc(I.w, a); return
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"):
            a = self._op(s, I.ops[0], I)
            if isinstance(a, Lin) and I.w and a.w != I.w: a = self._trunc(I.w, a) if a.w > I.w else self._ext("zext", I.w, a)
            env[I] = a; return
        if op == "select":
            c = self._op(s, I.ops[0], I)
            if isinstance(c, AggV): env[I] = atom(("opaque", self._fresh()), I.w or 64); return
            res = []
            for t, v in self.split(s, c):
                t.env[I] = self._op(t, I.ops[1] if v else I.ops[2], I); res.append(t)
            return ("fork", res)
        if op == "extractvalue":
            a = self._op(s, I.ops[0], I)
            env[I] = self._extract(a, tuple(I.idx), I.w or 64); return
        if op == "insertvalue":
            a = self._op(s, I.ops[0], I); v = self._op(s, I.ops[1], I)
            d = dict(a.d) if isinstance(a, AggV) else {}
            d[tuple(I.idx)] = v
            if isinstance(v, AggV):
                del d[tuple(I.idx)]
                for k, x in v.d.items(): d[tuple(I.idx) + k] = x
            env[I] = AggV(d); return
        if op == "load":
            a = self._op(s, I.ops[0], I)
            env[I] = self._load(s, a, I.size, I)
            if isinstance(a, Lin) and a.t: env[("deref", a.t)] = True      # what was read through is not null
            if I.w and isinstance(env[I], Lin) and env[I].w != I.w:
                x = env[I]; env[I] = self._trunc(I.w, x) if x.w > I.w else self._ext("zext", I.w, x)
            if I.extra or (self.watch and self.watch(a)):
                e = self._ev(s, "load", I); e.addr, e.val, e.size, e.order = a, env[I], I.size, I.extra
            return
        if op == "store":
            v, a = self._op(s, I.ops[0], I), self._op(s, I.ops[1], I)
            self._store(s, a, I.size, v, I); return
        if op == "atomicrmw":
            a, v = self._op(s, I.ops[0], I), self._op(s, I.ops[1], I)
            old = self._load(s, a, I.size, I)
            e = self._ev(s, "rmw", I); e.callee, e.addr, e.val, e.size, e.order, e.mem = I.pred, a, v, I.size, I.extra, s.mem
            old = atom(("call", e.seq, "atomicrmw " + I.pred), I.w); terms.set_width(("call", e.seq, "atomicrmw " + I.pred), I.w)
            e.res = old; env[I] = old
            new = {"add": lambda: add(old, v, I.w), "sub": lambda: sub(old, v), "xchg": lambda: v}.get(I.pred, lambda: self._binop(I.pred, I.w, old, v) if I.pred in ("or", "and", "xor") else atom(("opaque", self._fresh()), I.w))()
            s.mem = Mem(s.mem, ("store", a, I.size, new, I)); return
        if op == "cmpxchg":
            a, exp, new = (self._op(s, o, I) for o in I.ops)
            e = self._ev(s, "cmpxchg", I); e.addr, e.args, e.val, e.size, e.order = a, [exp], new, I.size, I.extra
            w = I.size * 8
            ok = s; bad = s.fork()
            bad.events[-1] = _copy_ev(e)
            e.callee = "ok"; bad.events[-1].callee = "fail"
            ok.env[I] = AggV({(0,): exp, (1,): const(1, 1)})
            ok.mem = Mem(ok.mem, ("store", a, I.size, new, I))
            x = ("call", e.seq, "cmpxchg-seen"); terms.set_width(x, w)
            bad.env[I] = AggV({(0,): atom(x, w), (1,): const(0, 1)})
            return ("fork", [ok, bad])
        if op == "call":
            return self._call(s, I, stop)
        if op == "fence": return
        if op == "vaarg":
            n = self._fresh(); e = self._ev(s, "vaarg", I); e.addr = self._op(s, I.ops[0], I)
            env[I] = atom(("vaarg", e.seq), I.w or 64); e.res = env[I]; return
        if op in ("fcmp",): env[I] = atom(("fcmp", I.id, self._fresh()), 1); return
        if op in ("uitofp", "sitofp", "fptoui", "fptosi", "fadd", "fsub", "fmul", "fdiv", "fneg", "fptrunc", "fpext", "extractelement", "insertelement", "shufflevector", "frem"):
            env[I] = atom(("opaque", op, self._fresh()), I.w or 64); return
        raise AnalysisBroken(f"unmodelled instruction {op} in {self.F.dname} at {I.loc()}")
    def _extract(self, a, idx, w):
        if isinstance(a, AggV):
            if idx in a.d: return a.d[idx]
            sub_ = {k[len(idx):]: v for k, v in a.d.items() if k[:len(idx)] == idx}
            if sub_: return AggV(sub_)
            return atom(("undef", idx), w)
        x = ("ext", a, idx); terms.set_width(x, w)
        return atom(x, w)
    def _ev(self, s, kind, I):
        e = Ev(); e.kind = kind; e.callee = e.dname = e.args = e.res = e.addr = e.val = e.size = e.order = e.mem = None
        e.loc = I.loc() if I is not None else "?"; e.seq = self._fresh(); e.loops = s.loops; e.ncond = len(s.facts.conds); e.ins = I
        s.events.append(e)
        return e
    # ------------------------------------------------------------ memory
    def _alias(self, a, sa, b, sb, escaped):
        d = sub(a, b)
        if d.const:
            k = d.sc
            if k == 0 and sa == sb: return "must"
            if sa and sb and (k >= sb or -k >= sa): return "no"
            return "may" if not (sa and sb) or True else "no"
        x, y = base_of(a), base_of(b)
        if x is None or y is None: return "may"
        if x == y: return "may"
        kx, ky = x[0], y[0]
        if kx == "alloca" or ky == "alloca":
            al, ot = (x, y) if kx == "alloca" else (y, x)
            if ot[0] in ("alloca", "glob", "arg"): return "no"
            if al not in escaped: return "no"
            return "may"
        if kx == "glob" and ky == "glob": return "no"
        for p, q in ((x, y), (y, x)):      # a new mapping is apart from an object no one else can reach
            if p[0] == "call" and p[2] == "mmap" and q[0] == "arg" and q[1] in self.private: return "no"
        if self.noalias_args and kx in ("arg", "glob") and ky in ("arg", "glob"): return "no"
        return "may"
    def _store(self, s, a, size, v, I):
        if isinstance(a, AggV): return
        e = self._ev(s, "store", I); e.addr, e.val, e.size, e.order, e.mem = a, v, size, I.extra, s.mem
        # a stored pointer escapes
        if isinstance(v, Lin):
            x = base_of(v)
            if x and x[0] == "alloca":
                ba = base_of(a)
                if not (ba and ba[0] == "alloca" and ba not in s.escaped): s.escaped.add(x)
                else: s.env.setdefault(("holds", ba), set()).add(x)
        s.mem = Mem(s.mem, ("store", a, size, v, I))
    def _escape(self, s, x):
        if x in s.escaped: return
        s.escaped.add(x)
        for y in s.env.get(("holds", x), ()): self._escape(s, y)
    def load(self, p, addr, size):
        """value of memory at the end of a path"""
        st = State(); st.mem = p.mem; st.escaped = set(); st.facts = p.facts; st.env = p.env
        return self._load(st, addr, size, None, allesc=True)
    def _load(self, s, a, size, I, mem="cur", allesc=False):
        w = (size or 8) * 8
        if isinstance(a, AggV): return atom(("opaque", self._fresh()), w)
        m = s.mem if mem == "cur" else mem
        esc = s.escaped if not allesc else _All()
        ba = base_of(a)
        ver = 0
        stable = bool(self.stable and self.stable(a))
        while m is not None:
            r = m.rec
            if r[0] == "store":
                al = self._alias(r[1], r[2], a, size, esc)
                if al == "must": return r[3]
                if stable: m = m.prev; continue
                if al == "may":
                    d = sub(a, r[1])
                    if d.const and isinstance(r[3], Lin) and 0 <= d.sc and d.sc + size <= r[2] and r[3].w == r[2] * 8:
                        # a slice of a wider store
                        x = r[3] if d.sc == 0 else self._binop("lshr", r[3].w, r[3], const(8 * d.sc, r[3].w))
                        return self._trunc(w, x) if w < r[3].w else x
                    if d.const and isinstance(r[3], AggV): ver = ("s", m.n); break
                    ver = ("s", m.n); break
            elif stable: pass
            elif r[0] == "fill":
                al = self._alias(r[1], r[2], a, size, esc)
                d = sub(a, r[1])
                if d.const and r[2] and 0 <= d.sc and d.sc + size <= r[2]:
                    v = r[3]
                    if v.const:
                        x = 0
                        for k in range(size): x |= v.c << (8 * k)
                        return const(x, w)
                    ver = ("s", m.n); break
                if al != "no": ver = ("s", m.n); break
            elif r[0] == "copy":
                d = sub(a, r[1])
                if d.const and r[2] and 0 <= d.sc and d.sc + size <= r[2]:
                    return self._load(s, addc(r[3], d.sc), size, I, mem=r[4], allesc=allesc)
                if self._alias(r[1], r[2], a, size, esc) != "no": ver = ("s", m.n); break
            elif r[0] == "loop":
                if r[3] and not (ba and ba[0] == "alloca" and ba not in esc): ver = ("L", r[1]); break
                if any(self._alias(x, z, a, size, esc) != "no" for x, z in r[2]): ver = ("L", r[1]); break
            elif r[0] == "call":
                if ba and ba[0] == "alloca" and ba not in r[2]: pass
                elif ba and ba[0] == "arg" and ba[1] in self.private and ba[1] not in r[3]: pass
                elif ba and ba[0] == "glob" and self.M.global_is_const(ba[1]): pass
                else: ver = ("c", r[1]); break
            m = m.prev
        if ver == 0 and ba and ba[0] == "glob" and self.M.global_is_const(ba[1]):
            v = self._const_load(ba[1], a, size)
            if v is not None: return v
        if ver == 0 and ba and ba[0] == "alloca":
            return atom(("undef", ("stack", a, size)), w)
        x = ("ld", a, size, ver); terms.set_width(x, w)
        return atom(x, w)
    def _const_load(self, name, a, size):
        d = sub(a, atom(("glob", name), 64))
        if not d.const: return None
        init = self.M.global_init(name)
        if isinstance(init, Const) and d.c == 0 and init.w == size * 8: return const(init.v, init.w)
        if isinstance(init, Glob) and d.c == 0: return self._op(None, init)
        if isinstance(init, Agg) and init.els and all(isinstance(e, Const) and e.w == size * 8 for e in init.els) and d.sc % size == 0 and 0 <= d.sc // size < len(init.els):
            e = init.els[d.sc // size]; return const(e.v, e.w)
        return None
    # ------------------------------------------------------------ calls
    def _call(self, s, I, stop):
        env = s.env; name = I.callee
        args = None
        if name and name.startswith("llvm."):
            base = name.split(".")[1]
            if base in ("dbg", "lifetime", "experimental", "donothing", "prefetch", "invariant", "var"): return
            ar = [self._op(s, o, I) for o in I.ops if not (isinstance(o, Opaque) and o.text.startswith("metadata"))]
            if base == "assume":
                res = [t for t, v in self.split(s, ar[0]) if v]
                return ("fork", res) if res else ("end",)
            if base in ("expect", "launder", "strip", "ssa", "annotation", "ptr"): env[I] = ar[0]; return
            if base in ("umin", "umax", "smin", "smax"):
                pr = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[base]
                c = self._icmp(s, pr, ar[0], ar[1]); res = []
                for t, v in self.split(s, c):
                    t.env[I] = ar[0] if v else ar[1]; res.append(t)
                return ("fork", res)
            if base in ("memset", "memcpy", "memmove"):
                n = ar[2]; sz = n.c if n.const else None
                e = self._ev(s, base, I); e.addr, e.val, e.size, e.args = ar[0], ar[1], sz, ar[:3]
                e.mem = s.mem
                if sz == 0: return
                if base == "memset": s.mem = Mem(s.mem, ("fill", ar[0], sz, ar[1]))
                else: s.mem = Mem(s.mem, ("copy", ar[0], sz, ar[1], s.mem))
                return
            if len(name.split(".")) > 2 and name.split(".")[2] == "with":
                x, y = ar[0], ar[1]; o = base[1:]
                v = self._binop({"add": "add", "sub": "sub", "mul": "mul"}[o], x.w, x, y)
                a = ("ovf", base, x, y)
                if x.const and y.const:
                    r = {"add": x.c + y.c, "sub": x.c - y.c, "mul": x.c * y.c}[o]
                    env[I] = AggV({(0,): v, (1,): const(0 if 0 <= r < (1 << x.w) else 1, 1)}); return
                env[I] = AggV({(0,): v, (1,): atom(a, 1)}); return
            if base == "trap": self._finish(s, "noreturn", None, stop, I); return ("end",)
            if base in ("va_start", "va_end", "va_copy", "stacksave", "stackrestore", "threadlocal"):
                e = self._ev(s, "call", I); e.callee, e.dname, e.args = name, name, ar
                if base == "threadlocal": env[I] = ar[0]
                return
            if base in ("usub",) : pass
            w = I.w or 64
            x = ("fn", name, tuple(ar)); terms.set_width(x, w)
            env[I] = atom(x, w) ; return
        args = [self._op(s, o, I) for o in I.ops]
        d = demangle(name) if name else None
        e = self._ev(s, "call", I); e.callee, e.dname, e.args = name, d, args
        e.mem = s.mem               # memory as the callee finds it
        if name is None:
            t = I.extra
            if isinstance(t, Opaque) and t.text == "asm": e.callee = e.dname = "asm"
            else:
                e.dname = "indirect"; e.addr = self._op(s, t, I) if t is not None else None
        if I.ty != "void":
            w = I.w or 64
            if name in self.pure:
                x = ("pure", name, tuple(args)); terms.set_width(x, w); env[I] = atom(x, w)
            else:
                x = ("call", e.seq, short(d)); terms.set_width(x, w); env[I] = atom(x, w)
            e.res = env[I]
        reach = None
        if d and ARGMEM.match(bare(d)):
            # std string/stream/path operations write only through the objects they are given and keep no pointer to them
            reach = {x for x in (base_of(a) for a in args if isinstance(a, Lin)) if x and x[0] == "alloca"}
        for a in args:
            if isinstance(a, Lin) and reach is None:
                x = base_of(a)
                if x and x[0] == "alloca" and name not in self.nocl and not self.readonly(d or ""): self._escape(s, x)
        if not (name in self.nocl or (d and self.readonly(d))):
            given = frozenset(x[1] for x in (base_of(a) for a in args if isinstance(a, Lin)) if x and x[0] == "arg")
            s.mem = Mem(s.mem, ("call", e.seq, frozenset(s.escaped if reach is None else reach), given))
        return

class _All:
    def __contains__(s, x): return True
    def __or__(s, o): return s

def _copy_ev(e):
    n = Ev()
    for k in Ev.__slots__: setattr(n, k, getattr(e, k))
    return n

def analyze(M, fname, **kw):
    A = Analyzer(M, fname, **kw)
    A.run()
    return A
