"""What the wrapped library functions are, independent of how the wrappers are written."""
# functions that are the same operation (64-bit off_t aliases, macro/function spellings, locking variants)
SAME = [{"open", "open64", "__open_2", "__open64_2"}, {"openat", "openat64"}, {"fopen", "fopen64"}, {"pread", "pread64"},
        {"getc", "fgetc", "_IO_getc", "getc_unlocked", "fgetc_unlocked", "getchar", "getchar_unlocked"},
        {"putc", "fputc", "_IO_putc", "_putc", "putc_unlocked", "fputc_unlocked"},
        {"getdelim", "__getdelim"}, {"fread", "fread_unlocked"}, {"mmap", "mmap64"}, {"gets", "fgets"},
        {"fwrite", "fwrite_unlocked"}]
def same(n):
    for s in SAME:
        if n in s: return s
    return {n}
# library functions that only observe (may be called any number of times around the real call)
OBSERVERS = {"fileno", "lseek", "lseek64", "ftello", "ftello64", "ftell", "strlen", "getsockname", "getpeername", "inet_ntop", "ntohs",
             "dfsan_read_label", "dfsan_set_label", "dfsan_get_label", "memcpy", "memmove", "memset", "fileno_unlocked"}
LIBQUERY = {"getsockname", "getpeername", "fileno", "accept", "accept4", "connect"}
# number of fixed parameters
ARITY = {"_IO_getc": 1, "_IO_putc": 2, "__getdelim": 4, "_putc": 2, "accept": 3, "accept4": 4, "close": 1, "connect": 3, "fclose": 1, "fgetc": 1, "fgetc_unlocked": 1,
         "fgets": 3, "fopen": 2, "fopen64": 2, "fputc": 2, "fread": 4, "fread_unlocked": 4, "free": 1, "fwrite": 4, "getc": 1, "getc_unlocked": 1, "getchar": 0,
         "getchar_unlocked": 0, "getdelim": 4, "malloc": 1, "mmap": 6, "munmap": 2, "open": 2, "open64": 2, "openat": 3, "pread": 4, "pread64": 4,
         "pthread_cond_broadcast": 1, "putc": 2, "read": 3, "realloc": 2, "recv": 4, "recvfrom": 6, "send": 4, "strcat": 2, "write": 3, "exit": 1, "__assert_fail": 4,
         "memmove": 3, "memcpy": 3, "memset": 3, "calloc": 2, "strdup": 1, "strndup": 2, "getline": 3, "sendto": 6, "pwrite": 4, "putchar": 1, "puts": 1, "fputs": 2}
# functions with an optional mode argument: position of the flags
MODE = {"open": 1, "open64": 1, "openat": 2}
