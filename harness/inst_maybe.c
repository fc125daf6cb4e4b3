/* Instances of the optional value macros (library code: compiled with coverage). */
#include "inst_maybe.h"
MAYBE_DEFINITION(int32_t)
MAYBE_DEFINITION(uint8_t)
MAYBE_DEFINITION(uint64_t)
MAYBE_DEFINITION(double)
MAYBE_DEFINITION(s12_t)
MAYBE_DEFINITION(str_t)
