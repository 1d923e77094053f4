"""Path-sensitive value-flow analysis of every output wrapper (whole-runtime LLVM IR, all helpers inlined): on every path
the call that records written bytes is compared with the contract of the library function: descriptor or stream, buffer or
label, byte count as a term over the library call's result, and position queried before the library call."""
from . import iocommon
from .iospec import OUTPUTS
MIN_OBLIGATIONS = 60
def check(rep):
    iocommon.check_io(rep, OUTPUTS, "taint_sink", inputs=False)
