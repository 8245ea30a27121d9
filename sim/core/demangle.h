// The library's optional configuration: backtrace symbols demangled.
#include "config.h"
#undef WANT_NAME_DEMANGLING
#define WANT_NAME_DEMANGLING 1
