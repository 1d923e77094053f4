"""The contract of each wrapped input/output function, taken from the C library's documentation:
which argument is the descriptor or stream, which the buffer, how many bytes a given result delivers."""
def R(**k): return k
# pos: 'fd' position of the descriptor before the call, 'file' position of the stream before the call, ('arg', i) explicit
INPUTS = {
    "read": R(fd=0, buf=1, pos="fd", n="ret"), "recv": R(fd=0, buf=1, pos="fd", n="ret"), "recvfrom": R(fd=0, buf=1, pos="fd", n="ret"),
    "pread": R(fd=0, buf=1, pos=("arg", 3), n="ret"), "pread64": R(fd=0, buf=1, pos=("arg", 3), n="ret"),
    "fread": R(file=3, buf=0, pos="file", n=("items", 1)), "fread_unlocked": R(file=3, buf=0, pos="file", n=("items", 1)),
    "fgets": R(file=2, buf=0, pos="file", n="string"),
    "getdelim": R(file=3, buf=("deref", 0), pos="file", n="ret"), "__getdelim": R(file=3, buf=("deref", 0), pos="file", n="ret"),
    "fgetc": R(file=0, pos="file", n="char"), "getc": R(file=0, pos="file", n="char"), "_IO_getc": R(file=0, pos="file", n="char"),
    "getc_unlocked": R(file=0, pos="file", n="char"), "fgetc_unlocked": R(file=0, pos="file", n="char"),
    "getchar": R(file="stdin", pos="file", n="char"), "getchar_unlocked": R(file="stdin", pos="file", n="char"),
    "mmap": R(fd=4, buf="ret", pos=("arg", 5), n=("map", 1)),
}
OUTPUTS = {
    "write": R(fd=0, buf=1, pos="fd", n="ret"), "send": R(fd=0, buf=1, pos="fd", n="ret"),
    "fwrite": R(file=3, buf=0, pos="file", n=("items", 1)),
    "putc": R(file=1, pos="file", n="char", label=0), "fputc": R(file=1, pos="file", n="char", label=0), "_IO_putc": R(file=1, pos="file", n="char", label=0),
}
# wrappers whose function is not reachable from instrumented programs (not in any ABI list) and that are known dead code
NOT_REDIRECTED = {"gets": "deprecated, absent from the ABI lists, removed from current C libraries"}
