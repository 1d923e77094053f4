"""Turns /repo's current C++ sources into linked, canonicalised LLVM modules.

Every run compiles the working tree again with the real build's language flags
(-fno-exceptions, -fno-rtti, NDEBUG); the output lives in a private scratch directory
that is removed when the process ends."""
import atexit, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = "/usr/bin/clang++-18"
PT = f"{REPO}/polytracker"
RUNTIME_DIRS = ["taintdag", "polytracker", "taint_sources"]
BASE = ["-std=gnu++20", "-DNDEBUG", "-fno-exceptions", "-fno-rtti", "-fPIC", "-w",
        '-DLLVM_VERSION_MAJOR=""', '-DLLVM_VERSION_MINOR=""',
        "-D__NO_INLINE__", "-include", "algorithm", "-include", "cstdlib", "-include", "utility",
        f"-I{VERIF}/shim", f"-I{PT}/include", f"-I{PT}/src/compiler-rt/include"]
DFSAN = ["-std=gnu++20", "-DNDEBUG", "-fno-exceptions", "-fno-rtti", "-fPIC", "-w",
         "-fno-builtin", "-ffreestanding", "-nostdinc++", "-fvisibility=hidden",
         f"-I{PT}/include", f"-I{PT}/src/compiler-rt/lib", f"-I{PT}/src/compiler-rt/include"]
EMIT = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names",
        "-gline-tables-only", "-emit-llvm", "-c"]

_tmp = None
class AnalysisBroken(Exception):
    """The analysis could not establish its own preconditions (exit 2)."""

def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="ptverif.")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("command failed: " + " ".join(cmd[:3]) + " ... " + cmd[-1] + "\n" + r.stderr[:3000])
    return r.stdout

def runtime_sources():
    out = []
    for d in RUNTIME_DIRS:
        p = f"{PT}/src/{d}"
        for f in sorted(os.listdir(p)):
            if f.endswith(".cpp"):
                out.append(f"{p}/{f}")
    return out

def dfsan_sources():
    p = f"{PT}/src/compiler-rt/lib/dfsan"
    return [f"{p}/dfsan.cpp", f"{p}/dfsan_custom.cpp"]

_SHIMOK = False
def stl_shim():
    """libstdc++'s own algorithm header with std::find_if dispatched to its plain loop instead of the equivalent
    four-way unrolled one (same semantics, a loop the summaries read directly)"""
    global _SHIMOK
    d = os.path.join(scratch(), "stl")
    if not _SHIMOK:
        os.makedirs(d + "/bits", exist_ok=True)
        src = "/usr/include/c++/13/bits/stl_algobase.h"
        t = open(src).read()
        k = t.rindex("std::__iterator_category(__first));")
        if "return __find_if(__first, __last, __pred," not in t[k - 200:k]: raise AnalysisBroken("unexpected libstdc++ find_if")
        t = t[:k] + "std::input_iterator_tag());" + t[k + len("std::__iterator_category(__first));"):]
        open(d + "/bits/stl_algobase.h", "w").write(t)
        _SHIMOK = True
    return d

def to_bc(src, flags=None, out=None):
    out = out or os.path.join(scratch(), src.strip("/").replace("/", "_") + ".bc")
    flags = list(flags if flags is not None else BASE)
    if "-nostdinc++" not in flags: flags = ["-I" + stl_shim()] + flags
    try:
        run([CXX] + EMIT + flags + [src, "-o", out])
    except AnalysisBroken:
        if f"-I{VERIF}/shim" not in flags:
            raise
        # the source needs something of the real spdlog: use it
        flags.remove(f"-I{VERIF}/shim")
        run([CXX] + EMIT + flags + ["-DFMT_SHARED", "-DSPDLOG_FMT_EXTERNAL", src, "-o", out])
    return out

def compile_many(jobs):
    """jobs: list of (src, flags) -> list of .bc paths, in parallel"""
    stl_shim()
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: to_bc(j[0], j[1]), jobs))
