"""Path-sensitive value-flow analysis of every input wrapper (whole-runtime LLVM IR, all helpers inlined, loops
summarised): on every path through the wrapper the call that registers tainted bytes is compared with the contract of the
library function: descriptor or stream, buffer, byte count as a term over the library call's result, and position as a
term over the position query made before the library call."""
from . import iocommon
from .iospec import INPUTS
MIN_OBLIGATIONS = 200
def check(rep):
    iocommon.check_io(rep, INPUTS, "source_taint", inputs=True)
