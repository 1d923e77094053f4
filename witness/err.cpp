// the error report, analysed on its own
#include "taintdag/error.h"
extern "C" void w_error_exit(int n) { taintdag::error_exit("message", n); }
