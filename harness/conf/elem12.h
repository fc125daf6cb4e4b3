#ifndef ELEM12_H
#define ELEM12_H
#include <stdint.h>
typedef struct { uint32_t a; uint16_t b; uint8_t c[6]; } mon_elem12_t;
#endif
