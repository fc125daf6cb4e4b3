#ifndef INST_MAYBE_H
#define INST_MAYBE_H
#include <stdint.h>
#include "data_structures/maybe.h"
typedef struct { uint32_t a; uint16_t b[3]; uint16_t c; } s12_t;
typedef const char *str_t;
MAYBE_DECLARATION(int32_t)
MAYBE_DECLARATION(uint8_t)
MAYBE_DECLARATION(uint64_t)
MAYBE_DECLARATION(double)
MAYBE_DECLARATION(s12_t)
MAYBE_DECLARATION(str_t)
#endif
