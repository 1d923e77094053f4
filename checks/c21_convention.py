"""Signatures: for every function that the shipped lists redirect (and every wrapper that exists), the prototype is taken from the
system's own headers through the compiler, transformed by the redirection convention, and compared with the LLVM type of the
wrapper.  Return labels: forward must-analysis over the control-flow graph of every wrapper (helpers inlined): on each path to a
return the return-label slot has been written."""
import os, re, subprocess
from .shadow import *
MIN_OBLIGATIONS = 300
HEAD = "assert ctype dirent dlfcn errno fcntl grp link locale netdb poll pthread pwd sched signal stdarg stddef stdint stdio stdlib string strings time unistd wchar arpa/inet netinet/in sys/epoll sys/mman sys/resource sys/select sys/socket sys/stat sys/time sys/types sys/uio sys/wait".split()
OWN = {  # not in a system header: the project's own interface and internal library names
 "_IO_putc": "int _IO_putc(int, FILE *);", "_IO_getc": "int _IO_getc(FILE *);",
 "_dl_get_tls_static_info": "void _dl_get_tls_static_info(size_t *, size_t *);",
 "__assert_fail": "void __assert_fail(const char *, const char *, unsigned, const char *);",
 "dfsan_get_label": "uint32_t dfsan_get_label(long);", "dfsan_set_write_callback": "void dfsan_set_write_callback(void (*)(int, const void *, size_t));",
 "dfsan_get_origin": "uint32_t dfsan_get_origin(long);",
 "__polytracker_log_conditional_branch": "void __polytracker_log_conditional_branch(uint64_t);",
 "__polytracker_log_tainted_control_flow": "uint64_t __polytracker_log_tainted_control_flow(uint64_t, uint32_t);",
}
FNPTR = {"pthread_create": {2}, "dl_iterate_phdr": {0}, "signal": {1}, "dfsan_set_write_callback": {0}, "qsort": {3}, "bsearch": {4}, "atexit": {0}, "twalk": {1}, "scandir": {2, 3}, "lfind": {4}, "lsearch": {4}, "pthread_once": {1}, "pthread_key_create": {1}, "sigset": {1}, "bsd_signal": {1}, "glob": {2}, "ftw": {1}, "nftw": {1}}
# callbacks the compiler's coverage instrumentation inserts; a program that asks for them brings its own
FOREIGN = re.compile(r"^__sanitizer_")
# redirected names that nothing can call: no callback of that name exists on either side, or it needs origin tracking
UNUSED = {"__polytracker_log_taint_cmp", "__polytracker_log_taint_op", "dfsan_get_origin"}
def listed(path):
    """names redirected by an ABI list: those that are custom, unless another category of the same list overrides nothing"""
    out = {}
    for n, l in enumerate(open(path, errors="replace"), 1):
        m = re.match(r"\s*fun:([^\s=*]+)=custom\s*$", l)
        if m: out.setdefault(m.group(1), f"{os.path.relpath(path, cxx.REPO)}:{n}")
    return out
def lists():
    d = cxx.PT + "/custom_abi"
    ps = [f"{d}/{f}" for f in sorted(os.listdir(d)) if f.endswith("abilist.txt")] + [cxx.PT + "/src/compiler-rt/lib/dfsan/done_abilist.txt"]
    return [p for p in ps if os.path.exists(p)]
def protos(names):
    """name -> (return type, parameter types, variadic) as the compiler sees the library's own declaration"""
    d = cxx.scratch(); inc = "#define _GNU_SOURCE 1\n#define _LARGEFILE64_SOURCE 1\n" + "".join(f"#include <{h}.h>\n" for h in HEAD)
    inc += "".join(v + "\n" for k, v in OWN.items() if k != "__assert_fail") + "".join(f"#undef {n}\n" for n in names)
    def run(ns, emit):
        src = os.path.join(d, "protos.c")
        body = "".join(f"extern __typeof__({n}) P_{n};\n" for n in ns) + "void *p[] = {" + ",".join(f"(void*)P_{n}" for n in ns) + "};\n"
        open(src, "w").write(inc + body)
        return subprocess.run(["clang-18", "-w", "-std=gnu11", "-fno-builtin", "-ferror-limit=0"] + (["-c", "-emit-llvm", "-o", src[:-2] + ".bc"] if emit else ["-fsyntax-only"]) + [src], capture_output=True, text=True), src[:-2] + ".bc"
    r, _ = run(sorted(names), False)
    unknown = set(re.findall(r"undeclared identifier '(\w+)'", r.stderr)) & set(names)
    r, bc = run(sorted(set(names) - unknown), True)
    if r.returncode: raise AnalysisBroken("prototypes: " + r.stderr[:600])
    M = prep.Module([bc]); out = {}
    for n in set(names) - unknown:
        F = M.fn("P_" + n); out[n] = (F.ret, [a.ty for a in F.args], F.vararg)
    return out, unknown
def expected(name, p):
    ret, args, va = p; a = []
    for i, t in enumerate(args): a += ["ptr", "ptr"] if i in FNPTR.get(name, ()) else [t]
    a += ["i32"] * len(args) + (["ptr"] if va else []) + (["ptr"] if ret != "void" else [])
    return ret, a, va
def must_set(M, F):
    """blocks that return although the slot (last parameter) may be unwritten"""
    slot = F.args[-1]
    def is_slot(o): return o is slot
    def writes(I):
        if I.op == "store" and len(I.ops) > 1 and is_slot(I.ops[1]): return I.size >= 4
        return I.op == "call" and any(is_slot(o) for o in I.ops)      # handed on to a function that keeps the same convention
    gen = {B.id: any(writes(I) for I in B.ins) for B in F.blocks}
    def dead(B, k):
        """the edge is taken only when the slot is null, which the caller never passes"""
        T = B.ins[-1]
        if T.op != "br" or not T.ops: return False
        c = T.ops[0]
        if getattr(c, "op", "") != "icmp" or c.pred not in ("eq", "ne") or not any(is_slot(o) for o in c.ops): return False
        return (c.pred == "eq") == (k == 0) if len(T.blocks) == 2 else False
    state = {B.id: True for B in F.blocks}; state[F.blocks[0].id] = False; work = [F.blocks[0]]; seen = {F.blocks[0].id}
    while work:
        B = work.pop(); out = state[B.id] or gen[B.id]
        for k, S in enumerate(B.succ):
            if dead(B, k): continue
            n = state[S.id] and out
            if S.id not in seen or n != state[S.id]: state[S.id] = n; seen.add(S.id); work.append(S)
    bad = [B for B in F.blocks if B.id in seen and B.ins[-1].op == "ret" and not (state[B.id] or gen[B.id])]
    return bad, sum(1 for B in F.blocks if B.ins[-1].op == "ret"), len(F.blocks)
def refuted(M, s, F):
    """path-sensitive second look: every feasible returning path has written the slot"""
    try: A = analyze(M, s, max_paths=3000, private={len(F.args) - 1})
    except AnalysisBroken: return False
    slot = atom(("arg", len(F.args) - 1), 64)
    def fine(p):
        v = A.load(p, slot, 4); a = v.single() if isinstance(v, Lin) else None
        return not (a and a[0] == "ld" and a[1] == slot and a[3] == 0)
    return all(fine(p) for p in A.paths if p.end == "ret")
def check(rep):
    rep.rule("exists", "every function the lists redirect has a wrapper in the runtime or in the sanitizer")
    rep.rule("signature", "a wrapper takes the function's own parameters (a function pointer as trampoline and pointer), one label per parameter, the variadic labels, the return-label slot, and returns the same type")
    rep.rule("return-label", "on every path that returns, the return-label slot has been written")
    rep.assumptions += ["prototypes are those of this system's C library headers", "origin tracking is off (the tracking compiler never switches it on)",
                        "a helper that is handed the return-label slot and is not part of the analysed sources sets it"]
    mods = [wrappers(), custom(), dfsan()]
    for M in mods: M.passes("function(jump-threading,early-cse,jump-threading)"); M.refresh(); M._fn.clear()     # branches on a condition already decided become straight edges
    names = {}
    for p in lists():
        for n, l in listed(p).items(): names.setdefault(n, l)
    rep.count("lists", len(lists())); rep.count("redirected functions", len(names))
    if len(names) < 60: raise AnalysisBroken("the lists redirect almost nothing: format not understood")
    have = {}
    for M in mods:
        for s in M.rootset:
            if s.startswith("__dfsw_"): have.setdefault(s[7:], []).append((M, s))
    for n, l in sorted(names.items()):
        if FOREIGN.match(n) or n in UNUSED: continue
        rep.ob("exists", n, n in have, f"{n} is redirected but there is no __dfsw_{n}", l)
    P, unknown = protos(set(names) | set(have))
    rep.count("functions with a prototype", len(P)); rep.analysed["without prototype, not compared"] = ", ".join(sorted(n for n in unknown if n in have)) or "none"
    for n, defs in sorted(have.items()):
        for M, s in defs:
            F = M.fn(s); got = (F.ret, [a.ty for a in F.args], F.vararg); loc = next((f"{i.file.split('/')[-1]}:{i.line}" for i in F.instrs() if i.line and i.file), "")
            if n in P:
                want = expected(n, P[n])
                while len(got[1]) > len(want[1]) and not used(F, len(got[1]) - 1): got[1].pop()      # a trailing parameter nobody reads
                rep.ob("signature", n, got == want, f"__dfsw_{n} is {show_sig(got)}, its callers use {show_sig(want)}", loc)
                slot = P[n][0] != "void"
            else: slot = F.ret != "void"
            if slot and F.args and F.args[-1].ty == "ptr":
                bad, rets, nb = must_set(M, F)
                if bad and refuted(M, s, F): bad = []
                rep.count("wrappers"); rep.count("returns", rets); rep.count("blocks", nb)
                rep.ob("return-label", n, not bad, f"__dfsw_{n} can return without having set the return label", ", ".join(f"{i.file.split('/')[-1]}:{i.line}" for B in bad for i in B.ins[-1:] if i.line) or loc)
def used(F, i): return any(o is F.args[i] for I in F.instrs() for o in I.ops)
def show_sig(s): return f"{s[0]}({', '.join(s[1])}{', ...' if s[2] else ''})"
