/* M01: state machines generated by the macro, with handlers that record how they are called. */
#include "mon.h"
#include "inst_sm.h"

#define NH 40
typedef struct {
    int          kind, calls, handler, result;
    int          wrong;
    void        *model;
    sm_ev_t      ev;
    int          nested, nested_result; /* the handler sends an event of its own before it answers */
    unsigned     st;
    int         *hid;
    const sm_ops_t *o;
    sm_obj_t    *obj;
} sm_rec_t;

static int rec(int h, void *model, const sm_ev_t *ev, int kind) {
    sm_rec_t *r = MON->user;
    r->calls++;
    r->handler = h;
    if (kind != r->kind || model != r->model)
        r->wrong = 1;
    if (kind == 0 ? ev->payload[0] != (int)r->ev.payload[0] : memcmp(ev, &r->ev, sizeof *ev) != 0)
        r->wrong = 2;
    CHECK_EQ(r->o->state(r->obj), r->st, "state", "state while the handler runs");
    if (r->nested) {
        int result = r->result, calls = r->calls;
        r->nested = 0;
        r->result = r->nested_result;
        OP("its handler sends the event on, in state %u, handler %d will return %d", r->st, r->hid[r->st], r->result);
        int got = r->o->send(r->obj, r->model, &r->ev);
        CHECK_EQ(r->calls, calls + 1, "handler-calls", "handlers called for an event sent by a handler");
        CHECK(r->handler == r->hid[r->st], "handler", "handler %d was called, the current state's is %d", r->handler, r->hid[r->st]);
        CHECK_EQ(got, r->result >= 0, "report", "transition reported to a handler");
        if (r->result >= 0)
            r->st = (unsigned)r->result;
        CHECK_EQ(r->o->state(r->obj), r->st, "state", "state after the event of a handler");
        r->handler = h, r->result = result, r->calls = calls;
    }
    return r->result;
}
#define H(n)                                                                                                           \
    static int hi##n(sm_model_t *m, int e) {                                                                           \
        sm_ev_t ev = {{e}};                                                                                            \
        return rec(n, m, &ev, 0);                                                                                      \
    }                                                                                                                  \
    static int hs##n(sm_model_t *m, sm_ev_t e) { return rec(n, m, &e, 1); }                                            \
    static int hp##n(void **m, const char *e) { return rec(n, (void *)m, (const sm_ev_t *)(const void *)e, 2); }
#define ALL(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) \
    X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(34) X(35) X(36) X(37) X(38) X(39)
ALL(H)
#define PI(n) (sm_fn_t) hi##n,
#define PS(n) (sm_fn_t) hs##n,
#define PP(n) (sm_fn_t) hp##n,
static const sm_fn_t fns[3][NH] = {{ALL(PI)}, {ALL(PS)}, {ALL(PP)}};

static void m01(void) {
    int             k = rn(3);
    const sm_ops_t *o = &sm_ops[k];
    int             n = chance(1, 2000) ? 65530 + (int)rn(500) : chance(1, 20) ? 300 : 1 + (int)rn(NH), *hid, seen_neg = 0, seen_move = 0, seen_self = 0;
    hid = mon_zalloc(n * sizeof *hid);
    sm_fn_t        *tab   = mon_guard(n * sizeof *tab);
    sm_obj_t       *obj   = mon_alloc(sizeof *obj);
    char           *model = mon_alloc(64);
    sm_rec_t       *r     = mon_zalloc(sizeof *r);
    MON->user             = r;
    r->kind               = k;
    for (int i = 0; i < n; i++) {
        hid[i] = n <= NH && chance(3, 4) ? i : (int)rn(NH);
        tab[i] = fns[k][hid[i]];
    }
    unsigned st = rn(n);
    r->hid = hid, r->o = o, r->obj = obj;
    OP("%s machine with %d states, starting in %u", o->name, n, st);
    o->setup(obj, tab, st);
    for (int it = 0, max = mon_long(10 + rn(120)); it < max; it++) {
        if (chance(1, 12)) { /* the application swaps a handler of its own table */
            int i  = chance(1, 2) ? (int)st : (int)rn(n);
            hid[i] = rn(NH);
            tab[i] = fns[k][hid[i]];
            OP("the table's handler of state %d becomes %d", i, hid[i]);
        }
        if (chance(1, 40)) { /* or starts the same object over */
            st = rn(n);
            OP("start over in state %u", st);
            o->setup(obj, tab, st);
        }
        r->calls = r->wrong = 0;
        r->handler          = -1;
        r->model            = model + rn(60);
        for (int i = 0; i < 4; i++)
            r->ev.payload[i] = (long)rbits(64);
        switch (rn(6)) {
            case 0: r->result = -1; break;
            case 1: r->result = (int)(chance(1, 2) ? 0x80000000u : 0u - (uint32_t)(1 + rskew(0x7ffffffe))); break;
            case 2: r->result = (int)st; break;
            case 3: r->result = 0; break;
            default: r->result = rn(n); break;
        }
        r->st     = st;
        r->nested = chance(1, 8);
        if (r->nested)
            r->nested_result = chance(1, 3) ? -1 - (int)rn(5) : (int)rn(n);
        OP("send an event in state %u, handler %d will return %d", st, hid[st], r->result);
        int got = o->send(obj, r->model, &r->ev);
        CHECK(r->calls == 1, "handler-calls", "%d handlers were called for one event", r->calls);
        CHECK(r->handler == hid[st], "handler", "handler %d was called, the current state's is %d", r->handler, hid[st]);
        CHECK(r->wrong == 0, "arguments", "the handler got a wrong %s", r->wrong == 1 ? "model" : "event");
        CHECK_EQ(got, r->result >= 0, "report", "transition reported");
        st = r->st;
        if (r->result >= 0) {
            seen_move |= (unsigned)r->result != st;
            seen_self |= (unsigned)r->result == st;
            st = (unsigned)r->result;
        } else
            seen_neg = 1;
        CHECK_EQ(o->state(obj), st, "state", "state");
        mon_state(mon_mix(n, mon_mix(st, (r->result >= 0) + 2 * k)));
    }
    mon_guard_check(tab, "handler table");
    if (seen_neg && seen_move && seen_self)
        mon_nontrivial();
}
DRIVER("M01", m01,
       "random event sequences on machines of 1..66000 states with int, structure and pointer events and scripted handler results; "
       "non-trivial: refused, self and moving transitions all occurred")
