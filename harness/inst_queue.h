#ifndef INST_QUEUE_H
#define INST_QUEUE_H
#include <stddef.h>
#include <stdint.h>
typedef struct {
    const char *name;
    size_t      cap, esz, osz;
    void (*init)(void *);
    size_t (*count)(void *);
    int (*put)(void *, void *);   /* 1 accepted */
    int (*get)(void *, void *);   /* 1 returned; queue: dequeue, stack: pop */
    int (*drop)(void *);          /* queue: drop; stack: 1 always (bottom removal) */
    int (*peek)(void *, void *);  /* stack only */
    int (*empty)(void *);
    int (*full)(void *);
} coll_ops_t;
extern const coll_ops_t queue_ops[], stack_ops[];
extern const int        queue_nops, stack_nops;
#endif
