"""Bit-provenance analysis of the control-flow log writer, loops followed for every encoded length a 32-bit number can have:
the bytes of every entry are the event kind and the variable-length encodings of its numbers, and the scratch buffer is
never overrun.  The reader is analysed by the Python half."""
from .recorders import *
MIN_OBLIGATIONS = 60
ENTRY = {"enter_function": ("EnterFunction", [0]), "leave_function": ("LeaveFunction", [0]), "log_tainted_control_flow": ("TaintedControlFlow", [1, 0])}
def zero_bits(p):
    """bits known to be zero on this path"""
    z = set()
    for c in p.facts.conds:
        if c[0] == "bool" or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
        pr, x, y = c
        if x.const and not y.const: pr, x, y = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pr, pr), y, x
        if not y.const or x.const: continue
        hi = y.c - 1 if pr == "ult" else y.c if pr in ("ule", "eq") else None
        if hi is None or hi < 0: continue
        for b in bits(x)[hi.bit_length():]:
            if isinstance(b, tuple): z.add(b)
    return z
def entry_bytes(A, p, r):
    """the bytes written into a reservation, each as a bit vector, or None"""
    n = r.n.c; out = [None] * n
    for e in p.events:
        if e.kind in ("memcpy", "memmove"):
            d = sub(e.args[0], r.start)
            if d.const and e.args[2].const and 0 <= d.sc and d.sc + e.args[2].c <= n:
                for j in range(e.args[2].c): out[d.sc + j] = mem_at(A, p, e, Lin(64, e.args[1].c + j, e.args[1].t), 1)
            elif base_of(e.args[0]) == base_of(r.start): return None
        elif e.kind == "store" and e in r.writes:
            d = sub(e.addr, r.start)
            if not d.const or not 0 <= d.sc <= n - e.size: return None
            b = bits(e.val)
            for j in range(e.size): out[d.sc + j] = (e.val if e.size == 1 else b[8 * j:8 * j + 8])
    return [x if isinstance(x, list) else bits(x) if isinstance(x, Lin) else None for x in out]
def take(bs, i, z):
    """one variable-length number starting at byte i: (bit vector, next byte) or None"""
    v = []
    while i < len(bs):
        b = [0 if x in z else x for x in bs[i]]
        v += b[:7]; i += 1
        if b[7] == 0: return v, i
        if b[7] != 1: return None
    return None
def overruns(A, p):
    """stores that leave the local buffer they go into"""
    size = {("alloca", I.id): I.size for I in A.F.instrs() if I.op == "alloca"}; bad = []
    for e in p.events:
        if e.kind != "store" or not isinstance(e.addr, Lin): continue
        b = base_of(e.addr)
        if b in size and len(e.addr.t) == 1 and not 0 <= e.addr.sc <= size[b] - e.size: bad.append(f"{e.size} bytes at offset {e.addr.sc} of a {size[b]}-byte buffer")
    return bad
def check(rep):
    M = module("api"); L = layout(M)
    rep.assumptions += ["pthread mutexes behave as documented"]
    rep.rule("one-entry", "every event reserves one contiguous entry and fills all of it")
    rep.rule("kind", "the first byte is the kind of the event")
    rep.rule("numbers", "the following bytes decode to the function number and, for tainted branches, the label, and nothing is left over")
    rep.rule("buffer", "the scratch buffer is never overrun and loops end for every number")
    kinds = {}
    for nm, (k, order) in ENTRY.items():
        for d, A in method(M, nm + r"\(", unroll=12):
            P = params(d, A); rep.count("methods"); rep.count("paths", len(A.paths)); lens = set()
            for p in A.paths:
                w = where(p)
                for b in overruns(A, p) or [None]: rep.ob("buffer", nm, b is None, f"writes {b}", w)
                rep.ob("buffer", nm, p.end != "bound", "a loop does not end within the length of a 32-bit number", w)
                if p.end != "ret": continue
                rs = reservations(A, p, L)
                if not rep.ob("one-entry", nm, len(rs) == 1 and rs[0].sec.name == "ControlFlowLog" and rs[0].n.const, f"reservations: {[(str(r.sec), str(r.n)) for r in rs]}", w): continue
                bs = entry_bytes(A, p, rs[0])
                if not rep.ob("one-entry", nm, bs and None not in bs, f"not all of the {rs[0].n} reserved bytes are written", w): continue
                ok = all(x in (0, 1) for x in bs[0])
                kinds.setdefault(nm, set()).add(sum(x << i for i, x in enumerate(bs[0])) if ok else None)
                rep.ob("kind", nm, ok, f"the event kind is not a constant", w)
                z = zero_bits(p); i = 1; lens.add(len(bs))
                for k2 in order:
                    a = P[k2][1]; t = take(bs, i, z)
                    if not rep.ob("numbers", nm, t is not None, f"bytes from {i} are not one encoded number (path: {conds(p)})", w): break
                    v, i = t; want = [0 if (("arg", a), j) in z else (("arg", a), j) for j in range(32)]; v = v + [0] * (32 - len(v))
                    rep.ob("numbers", nm, v[:32] == want and all(x == 0 for x in v[32:]), f"parameter {a} is stored as {sorted({str(x) for x in v})[:4]} in {len(bs)} bytes (path: {conds(p)})", w)
                else: rep.ob("numbers", nm, i == len(bs), f"{len(bs) - i} bytes left over in an entry", w)
            rep.ob("numbers", nm, len(lens) > 1, "no variable-length entries found")
    for nm, v in kinds.items(): rep.ob("kind", nm, len(v) == 1 and all(v != o for n, o in kinds.items() if n != nm), f"kinds {v}")
    rep.ob("kind", "control flow log", len(kinds) == 3, f"events found: {sorted(kinds)}")
    from .pyhalf import cflog_reader
    cflog_reader(rep, {n: next(iter(v)) for n, v in kinds.items()})
