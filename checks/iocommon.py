import re
from .rt import *
from . import libc
ASSUME = ["addresses reached through different parameters or globals do not overlap the wrapper's own locals",
          "lengths and offsets do not wrap around 64 bits",
          "the C library behaves as documented for the wrapped function's result"]

def fileterm(A, spec):
    f = spec["file"]
    return None if f == "stdin" else at(A, f)
def is_stdin(t):
    a = t.single() if isinstance(t, Lin) else None
    return bool(a and a[0] == "ld" and a[1] == atom(("glob", "stdin"), 64))
def same_file(A, spec, t):
    return is_stdin(t) if spec["file"] == "stdin" else t == fileterm(A, spec)
def underlying(p, name):
    return [e for e in p.calls() if e.callee in libc.same(name)]

def check_io(rep, specs, recorder, inputs):
    rep.assumptions += ASSUME
    M = wrappers()
    rep.rule("present", "the wrapper for a redirected input/output function exists")
    rep.rule("once", "each returning path makes the library call exactly once")
    rep.rule("recorded-iff-delivered", "a path records bytes exactly when the library call's result says bytes were transferred")
    rep.rule("descriptor", "the recorded descriptor is the one passed in (or the stream's own)")
    rep.rule("buffer", "the recorded buffer (or label) is the one the bytes are in")
    rep.rule("length", "the recorded byte count is the number of bytes the result denotes")
    rep.rule("position", "the recorded offset is the position in effect before the library call")
    rep.rule("stops", "a path that does not return reports an error")
    rep.rule("label-of-result", "the label of a returned character is its source label, and untainted otherwise")
    rep.count("translation units", len(M.sources))
    for name, spec in specs.items():
        A = wrapper(name, M)
        if A is None:
            raise AnalysisBroken(f"no wrapper __dfsw_{name} in the runtime")
        rep.count("wrappers"); rep.count("paths", len(A.paths))
        for p in A.paths: one(rep, A, p, name, spec, recorder, inputs)

def one(rep, A, p, name, spec, recorder, inputs):
    site = f"__dfsw_{name}"; w = where(p)
    if p.end != "ret":
        if p.end == "noreturn":
            rep.ob("stops", site, errexit(p), "path ends without returning and without an error: " + conds(p), w)
        return
    U = underlying(p, name)
    if not rep.ob("once", site, len(U) == 1, f"{len(U)} calls of {name} on the path where {conds(p)}", w): return
    U = U[0]; res = U.res
    ui = seq_index(p, U)
    recs = api(p, recorder)
    other = api(p, "taint_sink" if inputs else "source_taint")
    rep.ob("recorded-iff-delivered", site, not other, "the wrapper records the transfer in the wrong direction", w)
    F = p.facts
    zero = const(0, res.w)
    # ---- did the call transfer bytes?
    n = spec["n"]
    if n == "ret": yes = F.holds("sgt", res, zero); maybe0 = F.holds("sge", res, zero)
    elif n == "char":
        yes = F.holds("ne", res, const(-1, res.w)); maybe0 = yes
        if not inputs and yes is None:
            pass
    elif n == "string": yes = F.holds("ne", res, zero); maybe0 = yes
    elif n[0] == "map": yes = F.holds("ne", res, const(-1, res.w)); maybe0 = yes
    else:
        sz = at(A, n[1]); prod = A._binop("mul", 64, sz, res)
        z = F.holds("eq", prod, const(0, 64)) or F.holds("eq", res, zero) or F.holds("eq", sz, const(0, 64))
        yes = None if z is None else not z
        if z is True: yes = False
        maybe0 = True if z is not True else False
        if not z and F.holds("eq", prod, const(0, 64)) is None and F.holds("eq", res, zero) is None: yes = None
    if not recs:
        rep.ob("recorded-iff-delivered", site, yes is False, f"nothing is recorded although {name} may have transferred bytes (path: {conds(p)})", w)
    elif len(recs) > 1:
        rep.ob("recorded-iff-delivered", site, False, f"{len(recs)} records for one transfer (path: {conds(p)})", w)
    else:
        rep.ob("recorded-iff-delivered", site, yes is True or maybe0 is True, f"bytes are recorded although {name} may have failed (path: {conds(p)})", w)
    for e in recs[:1]:
        rep.ob("recorded-iff-delivered", site, seq_index(p, e) > ui, "the transfer is recorded before it happened", w)
        l = e.loc
        # ---- argument positions: this, fd, then per overload
        fd = e.args[1]
        if "fd" in spec: ok = fd == at(A, spec["fd"])
        else:
            src = [x for x in p.calls() if x.callee in ("fileno", "fileno_unlocked") and x.res == fd]
            ok = bool(src) and same_file(A, spec, src[0].args[0])
        rep.ob("descriptor", site, ok, f"recorded descriptor is {fd}", l)
        chars = n == "char"
        if inputs:
            if chars: val, eng, k = optional_arg(A, p, e, 2); buf = None
            else: buf = e.args[2]; val, eng, k = optional_arg(A, p, e, 3)
            length = e.args[k]
        else:
            val, eng, k = optional_arg(A, p, e, 2)
            buf = e.args[k]; length = e.args[k + 1]
        # ---- buffer
        if buf is not None or chars:
            if "label" in spec:
                np = nparams(A)
                want = at(A, np + spec["label"])
                rep.ob("buffer", site, buf == want, f"recorded label is {buf}, the label of the written value is {want}", l)
            elif not chars:
                b = spec["buf"]
                if b == "ret": ok = same_value(p, buf, res)
                elif isinstance(b, tuple):
                    a = buf.single() if isinstance(buf, Lin) else None
                    ok = bool(a and a[0] == "ld" and a[1] == at(A, b[1]) and a[3] and a[3][0] == "c" and a[3][1] >= U.seq)
                else: ok = buf == at(A, b) or (name == "fgets" and buf == res)
                rep.ob("buffer", site, ok, f"recorded buffer is {buf}", l)
        # ---- length
        if n == "ret": ok = same_value(p, length, res) or (length.w != res.w and length == A._ext("sext", length.w, res))
        elif n == "char": ok = length == const(1, length.w)
        elif n == "string":
            src = [x for x in p.calls() if x.res is not None and x.res == length and x.callee == "strlen" and x.args[0] in (res, at(A, spec["buf"]))]
            if src:
                # counts only up to the first NUL byte delivered
                rep.ob("length-embedded-nul", site, False, "the byte count is taken from the terminating NUL: bytes delivered after an embedded NUL are not registered", l)
                rep.rule("length-embedded-nul", "the byte count covers every delivered byte, also after an embedded NUL")
                ok = True
            else: ok = False
        elif n[0] == "map": ok = length == at(A, n[1])
        else: ok = length == prod
        rep.ob("length", site, ok, f"recorded length is {length}", l)
        # ---- position
        pos = spec["pos"]
        cands = []
        if isinstance(pos, tuple): cands = [at(A, pos[1])]
        else:
            for x in p.events[:ui]:
                if x.kind != "call": continue
                if pos == "fd" and x.callee in ("lseek", "lseek64") and x.args[0] == at(A, spec["fd"]) and x.args[1] == const(0, 64) and x.args[2] == const(1, 32): cands.append(x.res)
                if pos == "file" and x.callee in ("ftello", "ftello64", "ftell") and same_file(A, spec, x.args[0]): cands.append(x.res)
        ok = False
        fl = flag(p, eng)
        for P in cands:
            if fl is True and val == P and F.holds("sge", P, const(0, P.w)) is True: ok = True
            if fl is False and F.holds("slt", P, const(0, P.w)) is True: ok = True
        rep.ob("position", site, ok, f"offset {'is ' + str(val) if fl else ('unknown' if fl is False else 'of undetermined validity')}; position before the call: {[str(x) for x in cands] or 'never queried'} (path: {conds(p)})", l)
    # ---- the label of a returned character
    if inputs and n == "char":
        ra = nparams(A) * 2
        got = A.load(p, at(A, ra), 4)
        if not recs: ok = got == const(0, 32)
        else:
            r = recs[0].res
            ok, det = char_label(A, p, r, got)
        rep.ob("label-of-result", site, ok, f"label of the returned character is {got} (path: {conds(p)})", w)

def nparams(A):
    """number of parameters of the wrapped (non-variadic, value-returning) function"""
    return (len(A.F.args) - 1) // 2

def char_label(A, p, r, got):
    """got must be the first label of the returned range when there is one, 0 otherwise"""
    # std::optional<pair<u32,u32>> comes back in registers: field 0 holds the pair, field 1 the flag
    first = A._trunc(32, A._extract(r, (0,), 64)) if isinstance(r, Lin) else None
    engaged = None
    for c in p.facts.conds:
        if c[0] == "bool" and "ext" in repr(c[1]): engaged = c[2]
        elif c[0] in ("eq", "ne") and isinstance(c[1], Lin) and mentions(c[1], lambda a: a[0] == "ext" and a[1] == r) and isinstance(c[2], Lin) and c[2].const and c[2].c == 0:
            engaged = (c[0] == "ne")
    if engaged is False: return got == const(0, 32), ""
    if engaged is True: return got == first, ""
    return False, ""
