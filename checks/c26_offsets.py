"""Value-flow analysis of positions: how a position reported by the system becomes an offset (unknown / unchanged / error),
and how each transfer without a position takes its offset from one atomic advance of the count of its own source and direction."""
from .recorders import *
from . import tracefile as tf
from .c12_sources import taint_fields
from .c13_sinks import record_layout
MIN_OBLIGATIONS = 60
def check(rep):
    M = module("api"); L = layout(M); F = module("flat")
    rep.assumptions += ["byte counts do not wrap around 64 bits", "lseek and ftello report the current position, or a negative value when there is none"]
    rep.rule("unknown", "a position is unknown exactly if the system reports a negative value")
    rep.rule("unchanged", "a known position is used unchanged")
    rep.rule("too-large", "a position is refused, with an error, exactly if it exceeds the largest offset that can be stored")
    rep.rule("ask", "the position is asked for once, without moving it")
    rep.rule("start", "a transfer at a known position starts there; otherwise it starts at the count of its own source and direction, which advances atomically by the length")
    rep.rule("own-counts", "the counts are zero at the start, and nothing but transfers without position changes them")
    mx = tf.const_of(M, "w_max_source_offset")
    for fn, ask in (("w_pos_off_t", None), ("w_pos_fd", "lseek"), ("w_pos_file", "ftello"), ("w_pos_none", ())):
        A = analyze(M, fn); rep.count("functions"); rep.count("paths", len(A.paths)); site = {"w_pos_off_t": "Offset::from_off_t", "w_pos_fd": "Offset::from_fd", "w_pos_file": "Offset::from_file", "w_pos_none": "Offset::Offset"}[fn]
        seen = set()
        for p in A.paths:
            w = where(p)
            if ask == ():
                rep.ob("unknown", site, p.end == "ret" and len(p.calls("w_pos_unknown")) == 1, "a default position is known", w); continue
            if ask:
                q = [e for e in p.calls() if re.match(r"f?seeko?(64)?$|lseek(64)?$|ftello?(64)?$|fgetpos|fsetpos|rewind", e.callee or "")]
                if not rep.ob("ask", site, len(q) == 1 and q[0].callee in (ask, ask + "64") and q[0].args[0] == at(A, 0) and (ask != "lseek" or q[0].args[1] == const(0, q[0].args[1].w) and q[0].args[2].c == 1), f"asks {[str(x) for x in q]}", w): continue
                v = q[0].res
            else: v = at(A, 0)
            neg = p.facts.holds("slt", v, const(0, 64)); big = p.facts.holds("sgt", v, const(mx, 64))
            k, u = p.calls("w_pos_known"), p.calls("w_pos_unknown")
            if p.end == "noreturn":
                seen.add("error"); rep.ob("too-large", site, stopped(p) and big is True and neg is not True, f"stops although the position can be stored (path: {conds(p)})", w); continue
            if not rep.ob("unknown", site, len(k) + len(u) == 1, "neither known nor unknown", w): continue
            if u: seen.add("unknown"); rep.ob("unknown", site, neg is True, f"unknown although the system reported {v} (path: {conds(p)})", w)
            else:
                seen.add("known")
                rep.ob("unknown", site, neg is False, f"known although the system reported a negative value (path: {conds(p)})", w)
                rep.ob("unchanged", site, k[0].args[0] == v, f"the position becomes {k[0].args[0]}", w)
                rep.ob("too-large", site, big is False, f"accepted although it cannot be stored (path: {conds(p)})", w)
        if ask != (): rep.ob("unknown", site, seen == {"error", "unknown", "known"}, f"outcomes: {sorted(seen)}")
    # transfers
    n = tf.const_of(M, "w_sizeof_offsets")
    rep.rule("counted", "every transfer without a known position advances the count, tainted or not")
    fo = taint_fields(M)[1]; so = record_layout(M, rep)["offset"]
    for d, A in method(M, r"\w+\("):
        nm = re.match(r"taintdag::PolyTracker::(\w+)", d).group(1)
        if nm == "PolyTracker" or "~" in d: continue
        rep.count("methods"); rep.count("paths", len(A.paths))
        P = params(d, A); pos = [i for t, i in P if "Offset" in t]
        for p in A.paths:
            w = where(p)
            up = [e for e in p.events if e.kind in ("store", "rmw", "cmpxchg", "memset", "memcpy") and isinstance(e.addr, Lin) and near(e.addr, L, n)]
            if not pos:
                rep.ob("own-counts", nm, not up, f"changes a running count ({up[:1]})", w); continue
            if p.end == "noreturn": continue
            lk = lookups(p); length = at(A, P[-1][1])
            if p.end == "ret" and not up and p.facts.holds("eq", length, const(0, length.w)) is True: continue
            if not lk and p.end == "ret": rep.ob("counted", nm, bitflag(p, ("arg", pos[0] + 1), 0) is True, f"returns without counting the bytes transferred although no position is known (path: {conds(p)})", w)
            if len(lk) != 1: rep.ob("own-counts", nm, not up, "changes a running count without a descriptor lookup", w); continue
            idx = lk[0].res.single(); tr = bitflag(p, idx, 8)
            if tr is False: rep.ob("own-counts", nm, not up, "changes a running count for an untracked descriptor", w); continue
            if tr is None: rep.ob("start", nm, False, "whether the descriptor is tracked is not decided", w); continue
            s, why = start_offset(A, p, L, "read_offsets" if nm.startswith("source") else "write_offsets", idx, pos[0], length)
            rep.ob("start", nm, s is not None, why, w)
            if s is None: continue
            rep.count("transfers")
            if nm.startswith("source"):
                enc = calls(p, re.compile(r"^taintdag::encode\("))
                used = [mem_at(A, p, c, Lin(64, c.args[0].c + fo[0], c.args[0].t), fo[1]) for c in enc]
            else: used = [r.field(*so) for r in reservations(A, p, L) if r.sec.name == "TaintSink"]
            for v in used:
                k = [a for a, _ in sub(v, s).t if a[0] == "K"] if isinstance(v, Lin) else []
                rep.ob("start", nm, len(k) == 1 and index_of(sub(v, s), k[0][1], length) is not None, f"the offset stored is {v}, the transfer starts at {s}", w)
        if pos: rep.ob("start", nm, [p for p in A.paths if bitflag(p, ("arg", pos[0] + 1), 0) is False and p.end != "noreturn"], "positions that are not known are not handled")
    # zero at the start
    A = tf.construct(F); rep.count("functions")
    for p in A.paths:
        if p.end != "ret": continue
        for which in ("read_offsets", "write_offsets"):
            o = L[which].c; got = zeroed(A, p, o, n)
            rep.ob("own-counts", "PolyTracker constructor", got is None, f"{which}: byte {got} is not zero after construction", where(p))
    rep.ob("own-counts", "PolyTracker", abs(L["read_offsets"].c - L["write_offsets"].c) >= n and n >= 8 * 256, f"the counts of the two directions overlap or do not cover every source: {L['read_offsets']}, {L['write_offsets']}, {n} bytes")
def near(a, L, n):
    """the address is, or may be, inside one of the count arrays"""
    for w in ("read_offsets", "write_offsets"):
        if base_of(a) != base_of(L[w]): continue
        d = sub(a, L[w])
        if d.const: 
            if 0 <= d.sc < n: return True
        elif all(k % 8 == 0 for _, k in d.t) and -8 * 256 < d.sc < n and 0 <= d.sc: return True
    return False
def zeroed(A, p, o, n):
    z = bytearray(n)
    for e in p.events:
        if e.kind not in ("store", "memset", "memcpy") or not isinstance(e.addr, Lin): continue
        d = sub(e.addr, at(A, 0)); size = e.size if isinstance(e.size, int) else (e.size.c if isinstance(e.size, Lin) and e.size.const else None)
        if size is None: continue
        zero = isinstance(e.val, Lin) and e.val.const and e.val.c == 0 and e.kind != "memcpy"
        if d.const:
            for i in range(max(d.sc, o), min(d.sc + size, o + n)): z[i - o] = zero
        elif len(d.t) == 1 and d.t[0][0][0] == "K" and d.t[0][1] == size:
            # one store per iteration of a loop: iterations 0 to the last one, whose number the exit condition tells
            for c in p.facts.conds:
                if c[0] != "eq" or not isinstance(c[1], Lin) or not isinstance(c[2], Lin): continue
                q = sub(c[1], c[2])
                if len(q.t) == 1 and q.t[0][0] == d.t[0][0] and -q.sc * q.t[0][1] >= 0 and q.sc % q.t[0][1] == 0:
                    last = -q.sc // q.t[0][1]
                    for i in range(max(d.sc, o), min(d.sc + size * (last + 1), o + n)): z[i - o] = zero
    for i in range(n):
        if not z[i]: return i
