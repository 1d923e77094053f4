"""Link + canonicalise.  Everything that is not a named API boundary is inlined, so a helper
extracted or folded back by a refactoring yields the same analysed function."""
import re
from . import llvmc
from .llvmc import Module, demangle
from .cxx import AnalysisBroken

SIMP = ("function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,"
        "early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>,simplifycfg,adce)")

ERR = re.compile(r"^(void )?taintdag::error_exit<")

def prepare(bcs, roots, boundaries=(), keep=(), rounds=3, simp=SIMP, errors=True):
    """roots: exact symbol names or compiled regexes on demangled names (analysed);
    boundaries: compiled regexes on demangled names (calls to them stay calls)."""
    M = Module(bcs)
    dn = M.dnames()
    defined = set(M.defined())
    def match(n, pats):
        d = dn[n]
        for p in pats:
            if isinstance(p, str):
                if n == p: return True
            elif callable(p):
                if p(d): return True
            elif p.search(d): return True
        return False
    missing = [p for p in list(roots) + list(boundaries) if not any(match(n, [p]) for n in dn)]
    M.missing = [p if isinstance(p, str) else getattr(p, "pattern", repr(p)) for p in missing]
    M.rootset = [n for n in defined if match(n, roots)]
    M.boundset = [n for n in dn if match(n, boundaries)]
    for n in list(defined):
        is_err = errors and bool(ERR.search(dn[n]))
        is_root, is_b = match(n, roots), match(n, boundaries) or is_err
        if is_err: M.attr(n, "noreturn")
        if is_b:
            for a in ("alwaysinline", "inlinehint"): M.attr(n, a, False)
            M.attr(n, "noinline")
        else:
            M.attr(n, "noinline", False)
            M.attr(n, "alwaysinline")
        if not (is_root or match(n, keep)):
            llvmc.set_linkage(M.fns[n], 8)
        else:
            llvmc.set_linkage(M.fns[n], 0)
    for n, f in M.fns.items():
        if errors and n not in defined and ERR.search(dn[n]): M.attr(n, "noreturn")
    M.resolve_aliases()
    pl = ["globaldce"]
    for _ in range(rounds):
        pl += ["always-inline", simp] + ["globaldce"]
    M.passes(",".join(pl))
    return M

def bare(d):
    """qualified function name of a demangled signature: no return type, template or parameter lists"""
    out = []; depth = 0; i = 0
    d = d.replace("operator<<", "operator\1").replace("operator<=>", "operator\2").replace("operator<=", "operator\3").replace("operator<", "operator\4").replace("operator>>", "operator\5").replace("operator>", "operator\6").replace("operator->", "operator\7").replace("operator()", "operator\x0e").replace("(anonymous namespace)", "{anon}")
    for c in d:
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif depth == 0:
            if c == "(": break
            out.append(c)
    n = "".join(out)
    if not "operator " in n: n = n.split(" ")[-1]
    else:
        k = n.index("operator "); n = n[:k].split(" ")[-1] + n[k:]
    for a, b in (("\1", "<<"), ("\2", "<=>"), ("\3", "<="), ("\4", "<"), ("\5", ">>"), ("\6", ">"), ("\7", "->"), ("\x0e", "()")): n = n.replace("operator" + a, "operator" + b)
    return n

def find(M, pat, one=True):
    """defined functions whose demangled name matches"""
    p = re.compile(pat) if isinstance(pat, str) else pat
    r = [n for n in M.defined() if p.search(demangle(n))]
    if one:
        if len(r) != 1:
            raise AnalysisBroken(f"expected exactly one function matching {p.pattern!r}, found {[demangle(x) for x in r]}")
        return r[0]
    return r
