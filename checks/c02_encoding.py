"""Bit-provenance dataflow over the compiled encode/decode functions (typed witnesses, all paths): every bit of every
field that comes out of decode(encode(x)) is traced back to the bit of x it came from; the Python decoder is interpreted
over the same bit-level encoding."""
from .wit import *
MIN_OBLIGATIONS = 40
B = {"S": 8, "R": 31, "U": 31}
def low(A, i, n):
    """the value of the i-th parameter, known to be below 2**n"""
    a = ("arg", i); return Lin(64, 0, ((("zext", 64, Lin(n, 0, ((a, 1),))), 1),))
def expect(A, p, t, i, n):
    if not isinstance(t, Lin): return False
    e = pathenv(p); got = bits(t, e)
    want = [(("arg", i), k) for k in range(n)] + [0] * (len(got) - n)
    if n == 1 and ("arg", i) in e: want = e[("arg", i)] + [0] * (len(got) - 1)
    return got == want
def check(rep):
    M = load("taint.cpp", ["taintdag/encoding.cpp"])
    rep.assumptions += ["labels are below 2**31 and offsets below 2**54, the documented limits"]
    rep.rule("kind", "a stored taint decodes to the kind that was encoded")
    rep.rule("field", "each decoded field is, bit for bit, the encoded one")
    rep.rule("mark", "the control-flow mark survives encoding; switching it on changes nothing else")
    rep.rule("query", "is_source_taint / check_affects_control_flow agree with the encoded value")
    rep.rule("total", "encoding and decoding a valid taint never fails")
    KIND = {"source": (1, (8, 54)), "range": (2, (31, 31)), "union": (3, (31, 31)), "union_swapped": (3, (31, 31))}
    jobs = [("w_rt_" + k, v, False) for k, v in KIND.items()] + [("w_mark_S", KIND["source"], True), ("w_mark_R", KIND["range"], True), ("w_mark_U", KIND["union"], True)]
    for w, (kind, (n1, n2)), marked in jobs:
        A = analyze(M, w); rep.count("witness functions"); rep.count("paths", len(A.paths))
        site = {"w_rt": "decode(encode", "w_ma": "decode(add_affects_control_flow(encode"}[w[:4]] + f"({'source range union'.split()[kind - 1]})){'(operands swapped)' if 'swapped' in w else ''}"
        for p in A.paths:
            if not rep.ob("total", site, p.end == "ret", f"fails on the path where {conds(p)}", where(p)): continue
            g = {o: out(A, p, o, s) for o, s in ((0, 4), (8, 8), (16, 8), (24, 1))}
            rep.ob("kind", site, g[0] == const(kind, 32), f"decoded kind is {g[0]} (1 source, 2 range, 3 union) on the path where {conds(p)}", where(p))
            rep.ob("field", site, expect(A, p, g[8], 1, n1), f"{'source index' if kind == 1 else 'first/lower label'} decodes to {g[8]}", where(p))
            rep.ob("field", site, expect(A, p, g[16], 2, n2), f"{'offset' if kind == 1 else 'last/higher label'} decodes to {g[16]}", where(p))
            if marked: rep.ob("mark", site, g[24] == const(1, 8), f"mark after switching it on is {g[24]}", where(p))
            else: rep.ob("mark", site, expect(A, p, g[24], 3, 1), f"control-flow mark decodes to {g[24]}", where(p))
    for k, (src,) in {"S": (1,), "R": (0,), "U": (0,)}.items():
        A = analyze(M, "w_q_src_" + k); rep.count("paths", len(A.paths))
        for p in A.paths: rep.ob("query", f"is_source_taint({k})", p.end == "ret" and p.ret == const(src, 1), f"answers {p.ret}", where(p))
        A = analyze(M, "w_q_cf_" + k); rep.count("paths", len(A.paths))
        for p in A.paths: rep.ob("query", f"check_affects_control_flow({k})", p.end == "ret" and expect(A, p, p.ret, 2, 1), f"answers {p.ret}", where(p))
    from .pyhalf import node_reader
    rep.rule("reader", "the Python reader takes every field from the bits the runtime stores it in, and tells the kinds apart")
    for w, kd in (("w_enc_source", "TDSourceNode"), ("w_enc_range", "TDRangeNode"), ("w_enc_ordered", "TDUnionNode")):
        A = analyze(M, w); rep.count("witness functions"); rep.count("paths", len(A.paths))
        for p in A.paths:
            if not rep.ob("total", f"encode({kd[2:-4].lower()})", p.end == "ret", f"fails on the path where {conds(p)}", where(p)): continue
            e = pathenv(p); bs = bits(p.ret, e)
            if not rep.ob("reader", kd, all(b in (0, 1) or (isinstance(b, tuple) and b[0][0] == "arg") for b in bs), f"the stored value {p.ret} is not made of the encoded fields", where(p)): continue
            node_reader(rep, kd, [(b[0][1], b[1]) if isinstance(b, tuple) else b for b in bs], {a[1]: v[0] for a, v in e.items() if a[0] == "arg"})
