#ifndef INST_TIME_H
#define INST_TIME_H
#include <stdint.h>
typedef struct {
    const char *name;
    int         bits;
    int (*after)(uint64_t, uint64_t);
    int (*before)(uint64_t, uint64_t);
    int (*after_eq)(uint64_t, uint64_t);
    int (*loose)(uint64_t s, uint64_t c, uint64_t d);
    int (*alias)(uint64_t s, uint64_t c, uint64_t d);
    int (*strict)(uint64_t s, uint64_t c, uint64_t d);
    uint64_t (*interval)(uint64_t, uint64_t);
} time_ops_t;
extern const time_ops_t time_ops;
#endif
