/* Instances of the state machine macros (library code: compiled with coverage). */
#include "inst_sm.h"
DEFINE_STATE_MACHINE(smi, int, sm_model_t)
DEFINE_STATE_MACHINE(sms, sm_ev_t, sm_model_t)
DEFINE_STATE_MACHINE(smp, const char *, void *)

#define OPS(n, ev_t, model_t, EVOF)                                                                                    \
    static int n##_send(sm_obj_t *o, void *model, const sm_ev_t *ev) {                                                 \
        n##_state_machine_t *sm = (n##_state_machine_t *)o->mem;                                                       \
        return n##_sm_send_event(sm, (model_t *)model, EVOF);                                                          \
    }                                                                                                                  \
    static void n##_setup(sm_obj_t *o, sm_fn_t *fns, unsigned int state) {                                             \
        n##_state_machine_t *sm = (n##_state_machine_t *)o->mem;                                                       \
        sm->managers            = (n##_event_manager_t *)fns;                                                          \
        sm->state               = state;                                                                               \
    }                                                                                                                  \
    static unsigned int n##_state(sm_obj_t *o) { return ((n##_state_machine_t *)o->mem)->state; }                      \
    _Static_assert(sizeof(n##_state_machine_t) <= sizeof(((sm_obj_t *)0)->mem), "object too small");
OPS(smi, int, sm_model_t, (int)ev->payload[0])
OPS(sms, sm_ev_t, sm_model_t, *ev)
OPS(smp, const char *, void *, (const char *)ev)
const sm_ops_t sm_ops[3] = {
    {"int", smi_setup, smi_send, smi_state},
    {"struct", sms_setup, sms_send, sms_state},
    {"pointer", smp_setup, smp_send, smp_state},
};
