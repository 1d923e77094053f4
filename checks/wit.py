"""Witness translation units: typed entry points (in /verif/witness) over the repository's headers, linked with the
repository sources they need, canonicalised and analysed like any other function of the runtime."""
import os, re
from engine import cxx, prep
from engine.absint import Analyzer, analyze
from engine.terms import Lin, const, atom, bits
from .rt import *
_c = {}
def load(name, srcs=(), boundaries=(), flags=None):
    key = (name, tuple(srcs))
    if key not in _c:
        jobs = [(os.path.join(cxx.VERIF, "witness", name), flags)] + [(f"{cxx.PT}/src/{s}", None) for s in srcs]
        M = prep.prepare(cxx.compile_many(jobs), [re.compile(r"^w_\w+$")], list(boundaries))
        M.sources = [j[0] for j in jobs]
        _c[key] = M
    return _c[key]
def pathenv(p):
    """1-bit atoms the path has decided"""
    e = {}
    for c in p.facts.conds:
        if c[0] == "bool" and isinstance(c[1], tuple): e[c[1]] = [1 if c[2] else 0]
    return e
def same_bits(p, t, want):
    """bit-for-bit equality of two terms on a path (want zero-extended to t's width)"""
    if not isinstance(t, Lin): return False
    e = pathenv(p)
    u, v = bits(t, e), bits(want, e)
    n = max(len(u), len(v)); u += [0] * (n - len(u)); v += [0] * (n - len(v))
    return all(x is not None and x == y for x, y in zip(u, v))
def atom_of(t):
    """the atom whose bits a (possibly widened) term carries"""
    b = bits(t)
    if b and isinstance(b[0], tuple):
        a = b[0][0]; n = 0
        for i, x in enumerate(b):
            if x == (a, i): n = i + 1
            elif x == 0 and n == i or (x == 0 and i >= n): continue
            else: return None
        return a
    return None
def out(A, p, off, size, base=0): return A.load(p, Lin(64, off, at(A, base).t), size)
