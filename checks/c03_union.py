"""Interval-coverage analysis of every path of the union computation, for each of the nine operand-kind pairs: the
path's branch conditions (zone domain) must entail that the result's members come from the operands and that both
operands are covered by the result."""
from .wit import *
MIN_OBLIGATIONS = 100
def check(rep):
    M = load("taint.cpp", ["taintdag/encoding.cpp"])
    rep.assumptions += ["operands are distinct labels below 2**31", "a stored range or union refers only to labels smaller than its own (a label is stored after its operands exist)",
                        "a stored union's members differ by at least two (adjacent labels form a range)"]
    rep.rule("result", "the union computation returns an operand's label or a range/union of labels")
    rep.rule("covers", "the result covers both operands")
    rep.rule("only", "every label the result refers to comes from an operand")
    rep.rule("wellformed", "a range result has first < last, a union result has lower < higher, neither carries a control-flow mark of its own")
    for a in "SRU":
        for b in "SRU":
            pair(rep, M, a, b)
def pair(rep, M, a, b):
    name = f"w_union_{a}{b}"; site = f"union_::compute({'source range union'.split()['SRU'.index(a)]}, {'source range union'.split()['SRU'.index(b)]})"
    ops = {}
    def assume(f, env, F):
        T = [env[x] for x in F.args]
        for k, base in ((a, 1), (b, 5)):
            L = T[base]
            f.assume("ult", L, const(1 << 31, 32)); f.assume("ugt", L, const(0, 32))
            if k == "S": ops[base] = ("S", L, T[base + 1], T[base + 2], [])
            else:
                lo, hi = T[base + 1], T[base + 2]
                f.assume("ult", hi, L)
                f.assume("ugt", lo, const(0, 32))
                if k == "R": f.assume("ult", lo, hi); ops[base] = ("R", L, None, None, [(lo, hi)])
                else: f.assume("ult", Lin(32, 1, lo.t), hi); ops[base] = ("U", L, None, None, [(lo, lo), (hi, hi)])
        f.assume("ne", T[1], T[5])
    A = analyze(M, name, assume=assume)
    rep.count("operand pairs"); rep.count("paths", len(A.paths))
    X, Y = ops[1], ops[5]
    for p in A.paths:
        F = p.facts; w = where(p)
        if not rep.ob("result", site, p.end == "ret", f"does not return on the path where {conds(p)}", w): continue
        kind, ta, tb, cf = out(A, p, 0, 4), out(A, p, 8, 8), out(A, p, 16, 8), out(A, p, 24, 1)
        k = kind.c if isinstance(kind, Lin) and kind.const else None
        def lab(t):
            x = atom_of(t); return atom(x, 32) if x else None
        ra, rb = lab(ta), lab(tb)
        if not rep.ob("result", site, (k == 0 and ra is not None) or (k in (2, 3) and ra is not None and rb is not None), f"result kind {kind}, fields {ta}, {tb}", w): continue
        def le(x, y): return x == y or F.holds("ule", x, y) is True
        def inside(x, pieces): return any(le(lo, x) and le(x, hi) for lo, hi in pieces)
        def sub(piece, pieces, depth=0):
            lo, hi = piece
            if depth > 6: return False
            for l2, h2 in pieces:
                if le(l2, lo) and le(lo, h2):
                    if le(hi, h2): return True
                    if sub((Lin(32, h2.c + 1, h2.t), hi), [q for q in pieces if q != (l2, h2)], depth + 1): return True
            return le(hi, lo) and inside(lo, pieces)
        pt = lambda x: (x, x)
        def covered(op, pieces):
            return inside(op[1], pieces) or (bool(op[4]) and all(sub(m, pieces) for m in op[4]))
        txt = f"(path: {conds(p)})"
        if k == 0:
            own = [o for o in (X, Y) if o[1] == ra]
            if not rep.ob("only", site, len(own) == 1, f"returns a label that is neither operand {txt}", w): continue
            own = own[0]; oth = Y if own is X else X
            same_src = own[0] == "S" == oth[0] and F.holds("eq", own[2], oth[2]) is True and F.holds("eq", own[3], oth[3]) is True
            ok = same_src or covered(oth, [pt(own[1])] + own[4])
            rep.ob("covers", site, ok, f"returns label {ra} although it need not cover the other operand {txt}", w)
        else:
            pieces = [(ra, rb)] if k == 2 else [pt(ra), pt(rb)]
            pool = [pt(X[1]), pt(Y[1])] + X[4] + Y[4]
            rep.ob("wellformed", site, F.holds("ult", ra, rb) is True and cf == const(0, 8), f"{'range' if k == 2 else 'union'} of {ra}, {rb}, mark {cf} {txt}", w)
            for q in pieces: rep.ob("only", site, sub(q, pool), f"the {'range ' + str(ra) + '..' + str(rb) if k == 2 else 'member ' + str(q[0])} is not made of operand labels {txt}", w)
            for o, nm in ((X, "left"), (Y, "right")): rep.ob("covers", site, covered(o, pieces), f"the {nm} operand is not covered by the {'range' if k == 2 else 'union'} {ra}, {rb} {txt}", w)
