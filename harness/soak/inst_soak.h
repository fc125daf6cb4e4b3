#ifndef INST_SOAK_H
#define INST_SOAK_H
#include <stddef.h>
#include <stdint.h>
typedef struct {
    const char *name;
    size_t      cap, osz;
    int (*run)(void *q, uint64_t keep, uint64_t n, uint64_t *bad); /* bits: 1 enqueue, 2 dequeue, 4 data, 8 queries */
} soak_t;
extern const soak_t soak_ops[];
extern const int    soak_nops;
#endif
