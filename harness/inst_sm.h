#ifndef INST_SM_H
#define INST_SM_H
#include "state_machine/state_machine.h"
typedef struct { long payload[4]; } sm_ev_t;
typedef struct { int dummy; } sm_model_t;
typedef void (*sm_fn_t)(void);
typedef struct { _Alignas(16) unsigned char mem[64]; } sm_obj_t;
typedef struct {
    const char *name;
    void (*setup)(sm_obj_t *, sm_fn_t *, unsigned int state);
    int (*send)(sm_obj_t *, void *model, const sm_ev_t *);
    unsigned int (*state)(sm_obj_t *);
} sm_ops_t;
extern const sm_ops_t sm_ops[3];
#endif
