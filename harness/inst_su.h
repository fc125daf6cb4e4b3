#ifndef INST_SU_H
#define INST_SU_H
#include <stdint.h>
#include <stddef.h>
#include "data_structures/struct_update.h"
#define SU_HUGE 300000
typedef struct { int32_t x, y; } su_pair_t;
typedef struct {
    uint8_t   a;
    int32_t   b;
    double    c;
    uint16_t  arr[7];
    su_pair_t pair;
    char      name[19];
    su_pair_t pairs[3];
    uint64_t  big;
    void     *ptr;
    int8_t    last;
    float     f;
    int64_t   wide;
    uint16_t  after;
    uint8_t   huge[SU_HUGE]; /* most targets end before this one */
    int32_t   tail[40];      /* more than 16 bits away from the start */
    uint64_t  last64;
} su_t;
/* creates an update of field `which` from the value found at src (n elements of array fields); reports where it
   must land */
#define SU_NFIELDS 26
/* fields that only the big targets have */
#define SU_FAR(w) ((w) == 13 || (w) >= 22)
#define SU_FARFIRST 22
/* fields from here on get a value of another type, which the update converts to the type of the field */
#define SU_CONVERTED 15
struct_update_t su_make(int which, const void *src, size_t n, size_t *off, size_t *size);
size_t          su_maxn(int which);  /* 0: not an array field */
size_t          su_esz(int which);
size_t          su_converted(int which, const void *src, void *out);
#endif
